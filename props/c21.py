"""The table modules are the rules plus the supplementary words."""
from props.generator import GROUPS, M, OUT, SRC, SUP, extra, generate, make, rules

LANGS = ["en", "es", "hi", "ru", "uk"]

VALUE = {str(v): v for v in [1, 4, 9, 10, 15, 99, 20, 70, 90, 200, 600, 900, 1000, 10**6, 10**9]}


def table(h, info, group, want, what):
    """The entries, in the order of number and word."""
    h.check(isinstance(info, dict) and group in info, what + ": no table")
    got = info[group]
    h.check(len(got) == len(want), what + ": number of entries")
    for w in want:
        h.check(w in got, what + ": missing")
        h.check(got[w] == want[w], what + ": value")


def ordered(h, info, what):
    for g in GROUPS:
        prev = None
        for w, n in info[g].items():
            if prev is not None:
                h.check(prev[1] < n or (prev[1] == n and prev[0] < w), what + ": order of the entries")
            prev = (w, n)


def override(h):
    """A supplementary word replaces the one of the rules."""
    g, ks, root = h.choice("group", [
        ("UNIT_NUMBERS", ["1", "4", "9"], "%s;"),
        ("DIRECT_NUMBERS", ["10", "15", "99"], "%s;"),
        ("TENS", ["20", "70", "90"], "%s[->>];"),
        ("HUNDREDS", ["200", "600", "900"], "%s[ >>];"),
        ("BIG_POWERS_OF_TEN", ["1000", "1000000", "1000000000"], "<< %s[ >>];"),
    ])
    k = h.word("key", ks)
    s = h.choice("supplement", ["aa", "bb", "ab"])
    n = h.word("number", [int(x) for x in ks] + [0, 5])
    data = rules(spellout_cardinal={ks[0]: root % "aa", ks[1]: root % "bb", "-x": "minus >>;"}, spellout_numbering={ks[2]: root % "cc"})
    data["rbnf"]["rbnf"]["SpelloutRules"]["spellout-cardinal-x"] = {k: root % "dd"}
    want = {"aa": int(ks[0]), "bb": int(ks[1]), "cc": int(ks[2]), "dd": VALUE[k]}
    want[s] = n
    out = make(h, {"xx.json": data}, {"xx.json": extra(**{g: {s: n}})})
    h.check(list(out) == ["xx"], "one module for one file")
    table(h, out["xx"], g, want, "merged table")
    for x in GROUPS:
        if x != g:
            h.check(out["xx"][x] == {}, "entry in another table")
    ordered(h, out["xx"], "merged table")


def hyphens(h):
    """Soft hyphens of the rules are dropped."""
    i = h.word("i", ["", "\xad", "\xad\xad"])
    j = h.word("j", ["", "\xad", "e"])
    a = h.word("a", ["x", "двад", "fif"])
    data = rules(spellout_cardinal={"5": i + a + j + "y;", "20": a + i + "ty" + j + "[->>];", "3000": "<< " + a + i + "d[ >>];"})
    out = make(h, {"xx.json": data}, {"xx.json": extra()})
    info = out["xx"]
    e = "e" if j == "e" else ""
    table(h, info, "UNIT_NUMBERS", {a + e + "y": 5}, "a soft hyphen in a unit")
    table(h, info, "TENS", {a + "ty" + e: 20}, "a soft hyphen in tens")
    table(h, info, "BIG_POWERS_OF_TEN", {a + "d": 1000}, "a soft hyphen in a power of ten")


def sets(h):
    """Rule sets for cardinals and numbering are read, no others."""
    a = h.choice("set", ["spellout-ordinal", "spellout-cardinal-cents", "spellout-numbering-year", "digits-ordinal", "%%lenient-parse", "spellout-numbering", "%spellout-cardinal-feminine"])
    first = h.choice("first", [False, True])
    k = h.word("key", ["1", "4", "9"])
    one, two = {"7": "x;"}, {k: "y;"}
    data = rules()
    s = data["rbnf"]["rbnf"]["SpelloutRules"]
    for n, r in [(a, two), ("spellout-cardinal", one)] if first else [("spellout-cardinal", one), (a, two)]:
        s[n] = r
    out = make(h, {"xx.json": data}, {"xx.json": extra()})
    want = {"x": 7}
    if a in ("spellout-numbering-year", "spellout-numbering", "%spellout-cardinal-feminine"):
        want["y"] = VALUE[k]
    table(h, out["xx"], "UNIT_NUMBERS", want, "rule sets")
    ordered(h, out["xx"], "rule sets")


def several(h):
    """Files do not influence each other; some are left out."""
    k = h.word("k", ["1", "4", "9"])
    n = h.word("n", [1, 2, 3])
    good = rules(spellout_cardinal={k: "x;", "90": "xt >>;"})
    other = rules(spellout_numbering={"15": "y;"})
    none = {"rbnf": {"rbnf": {h.choice("none", ["OrdinalRules", "SpelloutRule"]): {"digits-ordinal": {"0": "z;"}}}}}
    src = {"aa.json": good, "bb.json": other, "cc.json": none, "root.json": good, "es-419.json": good, "dd-Latn.json": good}
    order = list(src)
    i = h.choice("swap", range(len(order)))
    j = h.choice("with", range(len(order)))
    order[i], order[j] = order[j], order[i]
    sup = {f: extra(UNIT_NUMBERS={"u" + f[0]: n}, skip=[f[0]]) for f in src}
    out = make(h, src, sup, order)
    h.check(sorted(out) == ["aa", "bb", "dd-Latn"], "a module for each language with rules")
    table(h, out["aa"], "UNIT_NUMBERS", {"x": VALUE[k], "ua": n}, "first language")
    table(h, out["aa"], "TENS", {"xt": 90}, "first language")
    table(h, out["dd-Latn"], "UNIT_NUMBERS", {"x": VALUE[k], "ud": n}, "third language")
    table(h, out["bb"], "UNIT_NUMBERS", {"ub": n}, "second language")
    table(h, out["bb"], "DIRECT_NUMBERS", {"y": 15}, "second language")
    h.check(out["bb"]["TENS"] == {} and out["bb"]["SKIP_TOKENS"] == ["b"], "second language")


NAMES = ["root.json", "es-419.json", "es.json", "419.json", "s-419.json", "t.json", "roo.json", "root-x.json", "es-41.json", "es-4190.json",
         "es-419-x.json", "xroot.json", "Root.json", "ROOT.json", "es_419.json", "es-US.json", "en-001.json", "a.json", "zh-Hant.json", "__init__.json", "oot.json"]


def names(h):
    """Two rule sets are left out, no others."""
    f = h.choice("name", NAMES)
    g = h.choice("other", ["es-419.json", "root.json", "es.json", "yy.json"])
    src = {f: rules(spellout_cardinal={h.word("k", ["1", "4", "9"]): "x;"})}
    src[g] = rules(spellout_cardinal={"5": "y;"})
    out = make(h, src, {n: extra() for n in src})
    want = sorted(n[:-5] for n in src if n not in ("root.json", "es-419.json"))
    h.check(sorted(out) == want, "a module for each language")


def skips(h):
    """Conjunctions are sorted; the kind of scale is kept."""
    a = h.word("a", ["and", "y", "-", "và"])
    b = h.word("b", ["ba", "y", "trueno", "e"])
    scale = h.choice("scale", [True, False, None])
    e = extra([a, b, "la"], scale, UNIT_NUMBERS={"trueno": 1, "falsetto": 2})
    if scale is None:
        del e["USE_LONG_SCALE"]
    out = make(h, {"xx.json": rules(spellout_cardinal={"0": "falsch;", "1": "untrue;"})}, {"xx.json": e})
    got = out["xx"]["SKIP_TOKENS"]
    h.check(len(got) == 3, "number of conjunctions")
    h.check(got[0] <= got[1] and got[1] <= got[2], "order of the conjunctions")
    for x in (a, b, "la"):
        h.check(x in got, "a lost conjunction")
    if scale is None:
        h.check("USE_LONG_SCALE" not in out["xx"], "no kind of scale")
    else:
        h.check(out["xx"]["USE_LONG_SCALE"] is scale, "kind of scale")


def shipped(h, lang):
    """The modules in the package are what the generator makes."""
    fs = h.files()
    names = [lang + ".json", "root.json", "es-419.json"]
    i = h.choice("first", [0, 1, 2])
    fs.lists[SRC] = names[i:] + names[:i]
    compare(h, generate(h, fs), lang)


def all_shipped(h):
    """The same, for all languages."""
    fs = h.files()
    names = fs.listdir(SRC)
    lang = h.choice("lang", [n.split(".")[0] for n in names if n not in ("root.json", "es-419.json")])
    fs.lists[SRC] = [lang + ".json"]
    out = generate(h, fs)
    there = lang + ".py" in fs.listdir(OUT)
    h.check((lang in out) == there, "a module without rules or rules without a module")
    if there:
        compare(h, out, lang)


def compare(h, out, lang):
    h.check(list(out) == [lang], "one module for one file")
    info = out[lang]
    have = h.module("number_parser.data." + lang).info
    h.check(sorted(have) == sorted(info), "names of the tables")
    for g in GROUPS:
        words = sorted(set(have[g]) | set(info[g]))
        if words:
            w = h.word(g, words)
            h.check(w in have[g], "a word is missing in the package")
            h.check(w in info[g], "a word that is in no rule")
            h.check(have[g][w] == info[g][w], "a number differs")
    for g in ("SKIP_TOKENS", "USE_LONG_SCALE"):
        h.check(have.get(g) == info.get(g), g)


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": "up to six rule files of up to four rules, one supplementary word for each table, one exchange in the order of listing; 21 names of files; the real rule and supplementary files of all languages, those of the five supported ones in every rotation of a listing with two files to be left out",
        "thorough": "the same",
    },
    "outside": "What json and the file system do; the messages.  A word that two rules give different numbers gets the last one, checked for the shipped files only.",
}


def jobs(tier):
    out = [(n, n, {}) for n in ("override", "hyphens", "sets", "several", "names", "skips")]
    for l in LANGS:
        out.append(("shipped " + l, "shipped", {"lang": l}))
    out.append(("shipped", "all_shipped", {}))
    return out
