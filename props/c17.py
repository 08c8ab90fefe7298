"""The result of a call does not depend on the calls before it."""
from spec import en, lex, phrases

APIS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
LANGS = lex.LANGS + [None]
MIX = {l: lex.WORDS[l] + phrases.PLAIN[l] for l in lex.LANGS}
MIX["en"] = MIX["en"] + list(en.ORDINAL_WORDS)


def known(l):
    return {lex.base(w.lower()) for w in lex.ALL[l]}


# no language: words that one language knows, or none
LONE = {}
for _l in lex.LANGS:
    LONE[_l] = [w for w in lex.WORDS[_l] if not any(lex.base(w.lower()) in known(k) for k in lex.LANGS if k != _l)]
LONE["no"] = ["cows", "x", "коров", "vacas", "naïve"]
LONE["en"] = LONE["en"] + list(en.ORDINAL_WORDS)


def word(h, tag, lang):
    if lang is None:
        return h.word(tag, LONE[h.choice(tag + " of", ["en", "es", "uk", "no"])])
    return h.word(tag, MIX[lang])


def fresh_same(h, calls, what):
    """The last call of the list, after the others and in a fresh state."""
    last = calls[-1]
    h.reset()
    for c in calls[:-1]:
        h.call(*c)
    a = h.call(*last)
    b = h.call(*last)
    h.reset()
    c = h.call(*last)
    h.check(a.kind == c.kind, what + " (exception)")
    h.check(b.kind == c.kind, "a repeated call differs (exception)")
    if c.kind is None:
        h.check(h.same(a.value, c.value), what)
        h.check(h.same(b.value, c.value), "a repeated call differs")


def shaped(api, t):
    return t + " over " + t if api == "parse_fraction" else t


def same_text(h, api, lang):
    """One text, read by any function in any language before."""
    t = word(h, "t", lang)
    t = shaped(api, t)
    before = h.choice("before", APIS)
    other = h.choice("language before", LANGS + ["xx"])
    fresh_same(h, [(before, t, other), (api, t, lang)], "a call with the same text before changes the result")


def other_case(h, api, lang):
    """The same words in other case, order or number before."""
    t = word(h, "t", lang)
    u = word(h, "u", lang)
    k = h.choice("how", ["upper", "swap", "prefix", "longer"])
    if k == "upper":
        first = [t.upper() + " " + u.upper()]
    elif k == "swap":
        first = [u + " " + t]
    elif k == "prefix":
        first = [t, u]
    else:
        first = [t + " " + u + " " + t]
    fresh_same(h, [(api, shaped(api, x), lang) for x in first] + [(api, shaped(api, t + " " + u), lang)], "a call with a similar text before changes the result")


def other_text(h, api, lang, texts):
    """Other texts in other languages before."""
    t = word(h, "t", lang)
    calls = []
    before = h.choice("before", APIS)
    for x, l in texts:
        calls.append((before, shaped(before, x), l))
    fresh_same(h, calls + [(api, shaped(api, t), lang)], "calls with other texts before change the result")


def foreign(h, api, lang, other):
    """A word of another language, after calls in that language."""
    t = h.word("t", [w for w in lex.WORDS[other] if lex.base(w) not in known(lang)])
    u = h.word("u", lex.NONZERO_UNITS[other])
    before = h.choice("before", ["parse", "parse_number"])
    calls = [(before, u, other)]
    if h.choice("twice", [False, True]):
        calls.append((before, t, other))
    mine = lex.WORDS[lang][3]
    for x in (t, mine + " " + t):
        fresh_same(h, calls + [(api, shaped(api, x), lang)], "calls in the language of a foreign word change the result")


SCENES = {
    "each language": [("one two", "en"), ("dos mil y tres", "es"), ("एक सौ", "hi"), ("сто два", "ru"), ("двісті", "uk")],
    "errors": [("one", "xx"), ("", "en"), ("two", "EN"), ("half", "")],
    "detection": [("dos y dos", None), ("эта", None), ("two", None)],
    "numbers left open": [("one hundred and", "en"), ("five thousand -", "en"), ("veinte y", "es")],
    "no number": [("cows", "en"), ("½", "es"), ("- -", "en")],
    "wrong language": [("uno", "en"), ("one", "es"), ("один", "uk"), ("third", "hi")],
}


def many(h, api, lang, n):
    """A long history: n texts in two languages, all different, of different words."""
    calls = []
    for i in range(n):
        x = "%s %d" % (en.TENS[i % 8], i) if i % 2 else en.SUB_PHRASES[i % len(en.SUB_PHRASES)] + " x%d" % i
        calls.append(("parse" if i % 3 else "parse_number", x, "en" if i % 5 else "es"))
    calls.append(("parse", " ".join("w%d" % i for i in range(n)), "en"))
    t = word(h, "t", lang)
    fresh_same(h, calls + [(api, shaped(api, t), lang)], "a long history changes the result")


LETTERS = {"en": "abcdefghijklmnopqrstuvwxyz", "ru": "абвгдеєжзиіїйклмнопрстуфхцчшщьыэюя", "hi": "अआइईउऊएऐओऔकखगघचछजझटठडतथदधनपफबमयरलवशषसहािीुूेैो"}
LETTERS["es"] = LETTERS["en"]
LETTERS["uk"] = LETTERS["ru"]


HUNDRED = {"en": "one hundred", "es": "doscientos", "hi": "एक सौ", "ru": "сто", "uk": "сто"}


def small_word(h, api, lang, n):
    """Any word of a few letters between two numbers, after calls in its and all other languages."""
    c = ""
    for i in range(n):
        c = c + h.word("c%d" % i, list(LETTERS[lang]))
    a = lex.NONZERO_UNITS[lang][1]
    calls = [(x, "%s %s" % (lex.NONZERO_UNITS[l][0], lex.NONZERO_UNITS[l][1]), l) for l in lex.LANGS for x in ("parse", "parse_number")]
    calls += [(x, a, lang) for x in APIS]
    fresh_same(h, calls + [(api, HUNDRED[lang] + " " + c + " " + a, lang)], "a word between numbers is read in another way later")


META = {
    "budget": (200, 700),
    "vfrac": 10,
    "bounds": {
        "quick": 'a probe of one or two symbolic words in every language and none, for each function, after: a call with the same text by any function in any language or with an unsupported one; calls with similar texts; six scenes of one to five calls; words of another language after calls in it; any word of one or two letters between numbers, after calls in every language; 300 calls (1,100 for parse and parse_number in English and Spanish) with different texts, the last of as many different words.',
        "thorough": 'all scenes for all languages; words of three letters; 1,100 calls everywhere',
    },
    "outside": 'Histories that depend on more than 1,100 calls, on other modules of the process, on threads.',
}


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for l in LANGS:
        for api in APIS:
            k = {"api": api, "lang": l}
            if not deep and api == "parse_fraction" and l in ("hi", "ru", None):
                continue
            out.append(("same text, %s %s" % (api, l), "same_text", k))
            if deep or l in ("en", "es") and api != "parse_fraction":
                out.append(("similar text, %s %s" % (api, l), "other_case", k))
            out.append(("long history, %s %s" % (api, l), "many", {"n": 1100 if deep or l in ("en", "es") and api in APIS[:2] else 300, **k}))
            if not deep and l not in ("en", "es", None):
                continue
            for name, texts in SCENES.items():
                out.append(("%s, %s %s" % (name, api, l), "other_text", {"texts": texts, **k}))
    for l in lex.LANGS:
        for api in APIS[:2]:
            for n in (1, 2, 3) if deep else (1, 2):
                out.append(("word of %d letters, %s %s" % (n, api, l), "small_word", {"api": api, "lang": l, "n": n}))
    for i, l in enumerate(lex.LANGS):
        for j, o in enumerate(lex.LANGS):
            if l == o or {l, o} == {"ru", "uk"}:
                continue
            for a, api in enumerate(APIS[:3]):
                if deep or (i + j + a) % 3 == 0:
                    out.append(("word of %s, %s %s" % (o, api, l), "foreign", {"api": api, "lang": l, "other": o}))
    return out
