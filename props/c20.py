"""The tables are made from the CLDR spell-out rules as the rules say."""
from props.generator import GROUPS, M, extra, make, rules

SMALL = [str(i) for i in range(130)] + ["200", "230", "300", "365", "400", "500", "600", "700", "800", "900", "950", "999"]
ROUND = [str(d * 10**k) for k in range(1, 19) for d in range(1, 10)]
KEYS = SMALL + [k for k in ROUND if k not in SMALL] + ["1001", "1100", "220", "2400", "21000", "1500000", "990000000"]
NO_KEYS = ["x.x", "0.x", "-x", "x.0", "Inf", "NaN", "x,x", "", "1.5", "a"]
NUMBER = {k: int(k) for k in KEYS}
ZEROS = {k: (0 if k == "0" else len(k) - len(k.rstrip("0"))) for k in KEYS}
FIRST = {k: k[0] for k in KEYS}
POWER = {k: 10 ** ZEROS[k] for k in KEYS}
SIZE = {k: 1 if int(k) < 10 else 2 if int(k) < 100 else 3 for k in KEYS}
ROOTS = ["seven", "veinte", "двад­цять".replace("\xad", ""), "o'h", "deux cent", "x", "hundert", "千"]


# keys of rules that go through the whole generator
FEW = ["0", "7", "9", "10", "11", "13", "19", "20", "21", "30", "47", "70", "90", "99", "100", "110", "200", "220", "300", "365", "900", "1000", "1001", "1100", "2000", "3000", "21000", "990000000"]
FEW += [str(d * 10**k) for k in range(4, 19) for d in (1, 4)]


def number(h, via, more=()):
    """The key of a rule."""
    return h.word("key", (FEW if via == "module" else KEYS) + list(more))


def extract(h, via, key, word):
    if via != "rule":
        # one rule file, nothing to add to it
        out = make(h, {"xx.json": rules(spellout_cardinal={key: word})}, {"xx.json": extra()})
        h.check(list(out) == ["xx"], "a module for the rules")
        for g in GROUPS:
            h.check(isinstance(out["xx"], dict) and g in out["xx"], "a module without tables")
        return out["xx"]
    data = {g: {} for g in GROUPS}
    o = h.call_in(M, "_extract_information", key, word, data)
    h.check(o.exc is None, "extracting a rule raised an exception")
    return data


def only(h, data, group, root, value, what):
    for g in GROUPS:
        if g == group:
            h.check(data[g] == {root: value}, what)
        else:
            h.check(data[g] == {}, what + ": entry in the wrong table")


def nothing(h, data, what):
    for g in GROUPS:
        h.check(data[g] == {}, what)


def plain(h, via):
    """A rule without a substitution is the name of its number."""
    key = number(h, via)
    root = h.word("root", ROOTS)
    end = h.word("end", ["", ";"])
    data = extract(h, via, key, root + end)
    size = SIZE[key]
    if size == 1:
        only(h, data, "UNIT_NUMBERS", root, NUMBER[key], "a name below ten")
    elif size == 2:
        only(h, data, "DIRECT_NUMBERS", root, NUMBER[key], "a name below a hundred")
    else:
        nothing(h, data, "a name from a hundred on")


def ignored(h, via):
    """Rules that name no number."""
    key = number(h, via, NO_KEYS)
    t = h.word("t", ["", ";", "ERROR", "ERROR;", "=%spellout-numbering=;", "=%x=", "=#,##0=;", "<<;", "<< x;", "x>;", ">>;", "<<>>;", "<<x>>;", "<<x[>>];", "<< x >;", "<%x<y>>;", "x>>>;", "<< x[>>>];", "< x[>>];", "<<< x >>;"])
    nothing(h, extract(h, via, key, t), "a rule that names no number")


def references(h, via):
    """A rule that refers to another rule set names no number itself."""
    key = number(h, via)
    a = h.word("a", ["", " ", "x ", "minus ", "<< ", "<%x< y ", "ERROR"] + ROOTS)
    e = h.word("e", ["=%spellout-numbering=", "=%x=", "=#,##0=", "=", "=0="])
    t = h.word("t", ["", ";", " x;", "[ >>];", ">>;", "[->>];", " >%x>;"])
    nothing(h, extract(h, via, key, a + e + t), "a rule that refers to another rule set")


def no_number(h, via):
    key = h.word("key", NO_KEYS)
    t = h.word("root", ROOTS) + h.word("t", ["", ";", "[->>];", ">>", ">%x>;"])
    nothing(h, extract(h, via, key, t), "a rule for no whole number")


def compound(h, via):
    """The words of 20..90 and 200..900 that others follow."""
    key = number(h, via)
    root = h.word("root", ROOTS)
    t = h.word("tail", ["[->>];", "[ >>];", " [->>];", ">>;", " >>;", "[>>]", ">%y>;", "[ y >>];", "[ >%spellout-cardinal-masculine>];", "[-\u200b>>];"])
    data = extract(h, via, key, root + t)
    z = ZEROS[key]
    if FIRST[key] == "1":
        nothing(h, data, "a rule for a power of ten or a teen")
    elif z == 1:
        only(h, data, "TENS", root, NUMBER[key], "tens")
    elif z == 2:
        only(h, data, "HUNDREDS", root, NUMBER[key], "hundreds")
    else:
        nothing(h, data, "a rule for neither tens nor hundreds")


def multiplier(h, via):
    """The words of the powers of ten."""
    key = number(h, via)
    root = h.word("root", ROOTS)
    a = h.word("head", ["<< ", "<%x< ", "<%spellout-cardinal-masculine< ", "un <<  "])
    t = h.word("tail", ["[ >>];", "[>>]", " >>;", ">>", "[ >%x>];", "[ y >>];"])
    data = extract(h, via, key, a + root + t)
    if ZEROS[key] >= 2:
        only(h, data, "BIG_POWERS_OF_TEN", root, POWER[key], "power of ten")
    else:
        nothing(h, data, "a rule for a small number")


def plurals(h, via):
    """All plural forms of a power of ten."""
    key = number(h, via)
    r = h.choice("root", ROOTS)
    s = h.choice("other", [x for x in ROOTS if x != r])
    a = h.word("head", ["<< ", "<%x< "])
    t = h.word("tail", ["[ >>];", "[>>];", "[ >%x>];"])
    data = extract(h, via, key, a + "$(cardinal,one{" + r + "}other{" + s + "})$" + t)
    if ZEROS[key] >= 2:
        h.check(data["BIG_POWERS_OF_TEN"] == {r: POWER[key], s: POWER[key]}, "plural forms of a power of ten")
        for g in GROUPS[:-1]:
            h.check(data[g] == {}, "entry in the wrong table")
    else:
        nothing(h, data, "a rule for a small number")


CATEGORIES = ["zero", "one", "two", "few", "many", "other"]


def many_plurals(h, via):
    """One to six plural forms, some of them the same word."""
    key = number(h, via)
    n = h.choice("forms", [1, 3, 4, 5, 6])
    start = h.choice("first form", [0, 3])
    same = h.choice("the last form is the first", [False, True])
    forms = [ROOTS[(start + i) % len(ROOTS)] for i in range(n)]
    if same:
        forms[-1] = forms[0]
    kind = h.word("kind", ["cardinal", "ordinal"])
    t = h.word("tail", ["[ >>];", " >>;"])
    inner = "".join(c + "{" + f + "}" for c, f in zip(CATEGORIES[6 - n:], forms))
    data = extract(h, via, key, "<< $(" + kind + "," + inner + ")$" + t)
    if ZEROS[key] >= 2:
        power = POWER[key]
        h.check(data["BIG_POWERS_OF_TEN"] == {f: power for f in forms}, "plural forms of a power of ten")
        for g in GROUPS[:-1]:
            h.check(data[g] == {}, "entry in the wrong table")
    else:
        nothing(h, data, "a rule for a small number")


def rule_sets(h, via):
    """Cardinals and plain numbering are read, cents and the rest are not."""
    a = h.word("a", ["", "%", "%%", "x-"])
    m = h.word("m", ["spellout-cardinal", "spellout-numbering", "spellout-ordinal", "spellout", "digits-ordinal", "lenient-parse", "spellout-cardina", "numbering"])
    b = h.word("b", ["", "-masculine", "-year", "-cents", "-verbose", "cents", "-financial"])
    want = (m == "spellout-cardinal" or m == "spellout-numbering") and not (b == "-cents" or b == "cents")
    if via != "rule":
        data = rules()
        data["rbnf"]["rbnf"]["SpelloutRules"][a + m + b] = {"7": "x;"}
        out = make(h, {"xx.json": data}, {"xx.json": extra()})
        h.check(list(out) == ["xx"], "a module for the rules")
        if want:
            only(h, out["xx"], "UNIT_NUMBERS", "x", 7, "rule set")
        else:
            nothing(h, out["xx"], "wrong rule set")
        return
    o = h.call_in(M, "_is_valid", a + m + b)
    h.check(o.exc is None, "choosing the rules raised an exception")
    h.check(o.value == want, "wrong rule set")


# what the steps of the generator do counts only as far as its output shows it
CONFIRM = {"via": ("rule", "generator")}


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'keys 0..129, all d*10^k to 9*10^18 and some others; ten non-integer keys; eight names; the heads and tails of CLDR rules listed in the harness. Single rules with all keys, and whole runs of the generator on a file with one rule, with sixty keys.',
        "thorough": 'the same',
    },
    "outside": 'Several rules together and the supplementary words (C21).',
}


def jobs(tier):
    out = []
    for n in ("plain", "ignored", "references", "no_number", "compound", "multiplier", "plurals", "many_plurals", "rule_sets"):
        out.append((n, n, {"via": "rule"}))
        out.append((n + ", through the generator", n, {"via": "module"}))
    return out
