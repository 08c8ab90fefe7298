"""A call interrupted by another one gives what it gives on its own."""
from spec import en, lex, phrases

APIS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
MIX = {l: lex.WORDS[l] + phrases.PLAIN[l] for l in lex.LANGS}
MIX["en"] = MIX["en"] + list(en.ORDINAL_WORDS)
SHORT = {l: lex.NONZERO_UNITS[l] + phrases.PLAIN[l][:2] for l in lex.LANGS}


def text(word, api):
    if api == "parse_fraction":
        return word + " over 7"
    if api == "parse":
        return word + " x, " + word
    return word


def short(word, api):
    return word + "/7" if api == "parse_fraction" else word


def joined(h, lang, other):
    """Conjunctions and several numbers in both texts."""
    a, b = h.word("a", lex.WORDS[lang]), h.word("c", [w for w in lex.SKIP[lang] if w.isalpha()])
    t = ("parse", a + " " + b + " " + a + " " + b + " x", lang)
    c, d = h.word("b", lex.NONZERO_UNITS[other][:3]), (lex.SKIP[other] or ["x"])[-1]
    u = ("parse", c + " " + d + " " + c, other)
    oa, ob, xa, xb = h.race(t, u)
    same(h, oa, xa, "an interrupted call")
    same(h, ob, xb, "a call within another")


def unknown(h, api, other):
    """Both calls look for the language."""
    a = (api, text(h.word("a", en.ONES + phrases.PLAIN["en"][:2]), api), None)
    c = h.word("b", lex.NONZERO_UNITS["es"][2:])
    b = (other, text(c + " " + c if other == "parse" else c, other), None)
    oa, ob, xa, xb = h.race(a, b)
    same(h, oa, xa, "an interrupted call")
    same(h, ob, xb, "a call within another")


def same(h, o, x, what):
    h.check(o.kind == x.kind, what + " raises")
    if x.kind is None:
        h.check(h.same(o.value, x.value), what + " gives something else")


def words(api, source):
    """The place of the separator is different for words of each length."""
    return [w for w in source if api != "parse_fraction" or len(w) == len(source[1])]


def two(h, api, lang, other, olang):
    """One call within another, before any statement."""
    a = (api, text(h.word("a", words(api, MIX[lang or "en"])), api), lang)
    b = (other, text(h.word("b", words(other, SHORT[olang or "es"])), other), olang)
    oa, ob, xa, xb = h.race(a, b)
    same(h, oa, xa, "an interrupted call")
    same(h, ob, xb, "a call within another")


def both(h, api, lang, other, olang):
    """Each call is left once while the other runs."""
    v, w = SHORT[lang or "en"], SHORT[olang or "es"]
    if h.tier != "thorough":
        v, w = v[3:4] + v[-1:], w[4:5] + w[-1:]
    a = (api, short(h.word("a", v), api), lang)
    b = (other, short(h.word("b", w), other), olang)
    oa, ob, xa, xb = h.overlap(a, b)
    same(h, oa, xa, "a call left for another and finished before it")
    same(h, ob, xb, "a call left for another and finished behind it")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": "two calls, the second within the first, before any statement of the first (up to 4096; functions that touch no shared state run as a whole); one word in each text, any number word or other word of the language; the pairs of functions and languages of the jobs; rows of numbers and conjunctions; two calls without a language; for four pairs of functions and languages also overlaps: the first call is left before any of its statements, the second before any of its own, then the rest of the first and the rest of the second, with two words for each text",
        "thorough": "the same for all pairs of functions and more pairs of languages, overlaps with all units",
    },
    "outside": "More switches between the calls, three calls, switches within a statement; the import system; calls in processes.",
}

QUICK = [
    ("parse", "en", "parse", "es"),
    ("parse", "ru", "parse_number", "uk"),
    ("parse_number", "en", "parse", "en"),
    ("parse_number", "es", "parse_number", "hi"),
    ("parse_ordinal", "en", "parse_number", "ru"),
    ("parse_fraction", "uk", "parse_fraction", "en"),
    ("parse", "en", "parse_ordinal", None),
    ("parse_number", None, "parse", "uk"),
]


# each left once
OVERLAPS = [
    ("parse", "en", "parse", "es"),
    ("parse_number", "en", "parse", "en"),
    ("parse_number", "ru", "parse_number", "uk"),
    ("parse", "en", "parse_fraction", "es"),
]


def jobs(tier):
    todo = list(QUICK)
    if tier == "thorough":
        langs = lex.LANGS + [None]
        for i, a in enumerate(APIS):
            for j, b in enumerate(APIS):
                for k in (1, 2):
                    t = (a, langs[(i + j + k) % 5], b, langs[(i + 2 * j + 3 * k) % 6])
                    if t not in todo:
                        todo.append(t)
    out = [("%s %s, %s %s" % t, "two", {"api": t[0], "lang": t[1], "other": t[2], "olang": t[3]}) for t in todo]
    for t in todo if tier == "thorough" else OVERLAPS:
        out.append(("overlap, %s %s, %s %s" % t, "both", {"api": t[0], "lang": t[1], "other": t[2], "olang": t[3]}))
    out.append(("conjunctions en, es", "joined", {"lang": "en", "other": "es"}))
    out.append(("conjunctions es, en", "joined", {"lang": "es", "other": "en"}))
    out.append(("no language, parse parse", "unknown", {"api": "parse", "other": "parse"}))
    out.append(("no language, parse_number parse", "unknown", {"api": "parse_number", "other": "parse"}))
    if tier == "thorough":
        for a in APIS:
            out.append(("no language, %s parse_fraction" % a, "unknown", {"api": a, "other": "parse_fraction"}))
        out.append(("conjunctions en, hi", "joined", {"lang": "en", "other": "hi"}))
    return out
