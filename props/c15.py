"""Without a language: the one that knows most words of the text."""
from props.c14 import accent_variants, case_variants, soft, spelled
from spec import en, lex, phrases

# words by the languages that know them
GROUPS = {}
KNOWN = {l: {lex.base(w.lower()) for w in lex.ALL[l]} for l in lex.LANGS}
for _l in lex.LANGS:
    for _w in lex.WORDS[_l]:
        _m = tuple(k for k in lex.LANGS if lex.base(_w.lower()) in KNOWN[k])
        GROUPS.setdefault(_m, [])
        if _w not in GROUPS[_m]:
            GROUPS[_m].append(_w)
GROUPS[("en",)] = GROUPS[("en",)] + list(en.ORDINAL_WORDS) + ["and"]
GROUPS[("es",)] = GROUPS[("es",)] + ["y"]
GROUPS[()] = ["cows", "vacas", "कक", "коров", "їжак", "x", "12", "½", "ones", "veinti", "двое", "naïve"]
NAMES = list(GROUPS)
# Hindi text is only split at blanks
NOT_HI = [m for m in NAMES if m != ("hi",)]


def expected(members):
    """Most known words; English first, then es, hi, ru, uk; none: English."""
    best, most = "en", 0
    for l in lex.LANGS:
        n = sum([l in m for m in members])
        if n > most:
            best, most = l, n
    return best


def text(h, n, names, gap):
    t = ""
    members = []
    for i in range(n):
        m = h.choice("group%d" % i, names)
        members.append(m)
        w = h.word("w%d" % i, GROUPS[m])
        t = t + (gap if i else "") + w
    return t, expected(members)


def agrees(h, t, lang, step=True):
    """The language is read off the detection function; where it gives none or
    another, what counts is what the four functions do."""
    if step:
        o = h.call_in("number_parser.parser", "_valid_tokens_by_language", t)
        h.check(o.exc is None, "language detection raised an exception")
        h.check(o.value == lang, "another language than the one that knows most words")
    else:
        for api in ("parse", "parse_number", "parse_ordinal", "parse_fraction"):
            a = h.call(api, t)
            b = h.call(api, t, lang)
            h.check(a.kind == b.kind, api + " without a language raises differently")
            if a.kind is None:
                h.check(h.same(a.value, b.value), "another language than the one that knows most words")


# the detection function alone decides nothing
CONFIRM = {"step": (True, False)}


def detected(h, n, gap=" ", names=NAMES, step=True):
    """The detection function, any words in a row."""
    t, lang = text(h, n, names, gap)
    agrees(h, t, lang, step)


def same_as(h, n, api, names=NAMES, gap=" "):
    """Every function reads a text as it does in the language detected."""
    t, lang = text(h, n, names, gap)
    a = h.call(api, t)
    b = h.call(api, t, lang)
    h.check(a.kind == b.kind, api + " without a language raises differently")
    if a.kind is None:
        h.check(h.same(a.value, b.value), api + " without a language differs from the detected language")


def spelling(h, words, variants, step=True):
    """A word in any case, with any accents or soft hyphens, is known."""
    w = h.choice("word", words)
    m = [k for k in NAMES if w in GROUPS[k]][0]
    t = spelled(h, w, accent_variants if variants == "accents" else lambda c: soft(case_variants(c)))
    u = h.choice("with", ["x", "dos", "двоє"])
    lang = expected([m] + [k for k in NAMES if u in GROUPS[k]])
    for x in (t + " " + u, u + " " + t):
        agrees(h, x, lang, step)
    h.check(h.same(h.value("parse", x), h.value("parse", x, lang)), "parse without a language differs from the detected language")


def long(h, n, api, step=True):
    """Long texts: all words count, wherever they stand."""
    m = h.choice("group", NAMES)
    k = h.choice("other", [("es",), ("uk",), ()])
    a = h.word("a", GROUPS[m])
    b = h.word("b", GROUPS[k])
    at = h.choice("at", [0, 1, 2])
    pad = ["cows " * n, "12, " * n, "two dos " * n][h.choice("pad", [0, 1, 2])]
    t = [a + " " + b + " " + pad + "x", pad + a + " " + b, pad + a + " " + pad + b][at]
    know = [m, k]
    if pad[0] == "t":
        know = know + [("en",), ("es",)] * n * (2 if at == 2 else 1)
    lang = expected(know)
    if api is None:
        agrees(h, t, lang, step)
    else:
        h.check(h.same(h.value(api, t), h.value(api, t, lang)), api + " without a language differs from the detected language")


def ties(h, api, n, more):
    """As many words of one language as of another, or one more."""
    m = h.choice("first", NAMES[:-1])
    k = h.choice("second", NAMES[:-1])
    a = h.word("a", GROUPS[m][::9])
    b = h.word("b", GROUPS[k][::9])
    last = h.choice("turn", [0, 1])
    x, y = (n, n + more) if last else (n + more, n)
    t = (a + " ") * x + (b + " ") * y + "x"
    lang = expected([m] * x + [k] * y)
    h.check(h.same(h.value(api, t), h.value(api, t, lang)), api + " without a language differs from the detected language")


def sides(h, api):
    """Fractions: the language of the whole text, for both sides."""
    m = h.choice("left", NAMES)
    k = h.choice("right", NAMES)
    a = h.word("a", GROUPS[m])
    b = h.word("b", GROUPS[k])
    sep = h.choice("sep", [" over ", " / ", " divided by ", " - "])
    t = a + sep + b
    # the hyphen is a word English knows
    lang = expected([m, k] + ([("en",)] if sep == " - " else []))
    x = h.value(api, t)
    y = h.value(api, t, lang)
    h.check(h.same(x, y), api + " without a language differs from the detected language")


def numbers(h, lang, kind):
    """A number of one language is read without naming the language."""
    t, v = phrases.number(h, "n", lang, kind)
    h.check(h.value("parse_number", t) == v, "parse_number without a language")
    h.check(h.value("parse", t) == str(v), "parse without a language")
    h.check(h.value("parse_ordinal", t) == v, "parse_ordinal without a language")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'detection for any row of up to three words, four and five over fewer groups of words; all functions on any one or two words, three over fewer groups; one or two words in texts of 20 to 240 other words; two to five words of one language and as many or one more of another; both sides of a fraction; numbers of every form in en, es, hi, ru; every fourth word in any case, with any accents or soft hyphens.',
        "thorough": 'four words over all groups, five and six over fewer; texts of up to 1600 words; all functions on any three words; every word in any spelling',
    },
    "outside": 'Words glued to marks in Hindi.',
}


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for n in (0, 1, 2, 3) + ((4,) if deep else ()):
        out.append(("detected, %d words" % n, "detected", {"n": n}))
    out.append(("detected, 3 words, commas", "detected", {"n": 3, "gap": ", ", "names": NOT_HI}))
    for n in (20, 80) + ((400,) if deep else ()):
        out.append(("detected, long text of %d" % n, "long", {"n": n, "api": None}))
    out.append(("parse, long text", "long", {"n": 80 if deep else 20, "api": "parse"}))
    few = [("en",), ("es",), ("ru", "uk"), ("uk",), ()]
    fewer = few if deep else [("en",), ("es",), ("uk",), ()]
    most = [m for m in NAMES if m not in (("hi",), ("ru",))]
    out.append(("detected, 4 words", "detected", {"n": 4, "names": most}))
    out.append(("detected, 5 words", "detected", {"n": 5, "names": few}))
    if deep:
        out.append(("detected, 6 words", "detected", {"n": 6, "names": few}))
    for api in ("parse", "parse_number", "parse_ordinal", "parse_fraction"):
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(("%s, %d words" % (api, n), "same_as", {"n": n, "api": api}))
        out.append(("%s, 3 words" % api, "same_as", {"n": 3, "api": api, "names": fewer}))
        out.append(("%s, sides" % api, "sides", {"api": api}))
    for n in (2, 3, 4) + ((5, 8, 20) if deep else ()):
        for more in (0, 1):
            out.append(("%d words of one language, %d of another" % (n + more, n), "ties", {"api": "parse", "n": n, "more": more}))
    for v in ("accents", "case"):
        for m in NAMES:
            if m:
                out.append(("%s of words of %s" % (v, ",".join(m)), "spelling", {"words": GROUPS[m] if deep else GROUPS[m][::4] + GROUPS[m][-1:], "variants": v}))
    for l in ("en", "es", "hi", "ru"):
        for k in phrases.kinds(l):
            out.append(("%s %s" % (k, l), "numbers", {"lang": l, "kind": k}))
    return out
