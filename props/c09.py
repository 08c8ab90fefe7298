"""Text that is not a number is left as it is."""
import unicodedata

from spec import en, lex, phrases, typos


# characters that are not letters of any number word and split no word in a
# way that could leave one: used for arbitrary short strings
def chars(lang):
    out = []
    for lo, hi in ((0x21, 0x7F), (0xA1, 0x250), (0x370, 0x530), (0x900, 0x980), (0x2010, 0x2028), (0x20A0, 0x20C0), (0x2150, 0x2190), (0x3041, 0x3100), (0x4E00, 0x4E20), (0x1F600, 0x1F604), (0x1D41A, 0x1D41C), (0xDFFE, 0xE001), (0xFFFD, 0x10001)):
        out += range(lo, hi)
    bad = set("".join(lex.WORDS[lang]) + "".join(lex.SKIP[lang]) + "".join(en.ORDINAL_WORDS))
    res = []
    for c in out:
        ch = chr(c)
        if c in (0xAD, 0x3A3) or ch in bad or ch.lower() in bad or ch in ".,":
            continue
        if lex.base(ch.lower()) != ch.lower() and any(x in bad for x in lex.base(ch.lower())):
            continue
        if ch.isspace() or unicodedata.combining(ch):
            continue
        res.append(ch)
    return res


CHARS = {l: chars(l) for l in lex.LANGS}


def strange(h, lang, n):
    """Arbitrary characters, no number word in sight."""
    t = ""
    for i in range(n):
        t = t + h.word("c%d" % i, CHARS[lang])
    h.check(h.value("parse", t, lang) == t, "text changed")


def beside(h, lang):
    """... and next to a number."""
    c = h.word("c", CHARS[lang])
    d = h.word("d", CHARS[lang])
    w = h.word("w", lex.WORDS[lang])
    v = str(lex.VALUE[lang][w])
    h.check(h.value("parse", c + d + " " + w, lang) == c + d + " " + v, "text before a number")
    h.check(h.value("parse", w + " " + c + d, lang) == v + " " + c + d, "text after a number")


def words(h, lang, n):
    """Words that are no numbers, kept with their case and spacing."""
    t = ""
    for i in range(n):
        if i:
            t = t + h.word("gap%d" % i, [" ", "  ", "\t", "\n", ", ", ". ", ".", " - ", "; ", "    ", "\n\n\n", "\r\n\r\n", "\xa0\xa0"])
        t = t + h.word("w%d" % i, phrases.OTHER[lang])
    h.check(h.value("parse", t, lang) == t, "text changed")


def around(h, lang, kind):
    """Words around a number; one blank between them."""
    a = h.word("a", phrases.PLAIN[lang])
    b = h.word("b", phrases.PLAIN[lang])
    c = h.word("c", phrases.PLAIN[lang])
    t, v = phrases.number(h, "n", lang, kind)
    v = str(v)
    h.check(h.value("parse", a + " " + t + " " + b + " " + c, lang) == a + " " + v + " " + b + " " + c, "words around a number")
    h.check(h.value("parse", t + " " + a, lang) == v + " " + a, "word after a number")
    h.check(h.value("parse", a + " " + b + " " + t, lang) == a + " " + b + " " + v, "words before a number")


def long(h, lang, n):
    """A number in a long text."""
    a = h.word("a", phrases.PLAIN[lang])
    w = h.word("w", lex.WORDS[lang])
    b = h.word("b", phrases.PLAIN[lang])
    f = h.choice("filler", ["x ", "- \n", "y2; ", "(z) "] if not lex.SKIP[lang] else ["x ", "\n", "y2; ", "(z) "])
    v = str(lex.VALUE[lang][w])
    h.check(
        h.value("parse", a + " " + f * n + w + " " + b + " " + f * n + a, lang)
        == a + " " + f * n + v + " " + b + " " + f * n + a,
        "a number in a long text",
    )


def very_long(h, lang, n):
    """Numbers far behind in a text."""
    w = h.word("w", lex.NONZERO_UNITS[lang])
    f = h.choice("filler", ["xx ", "-- \n"] if not lex.SKIP[lang] else ["xx ", "?! \n"])
    v = str(lex.VALUE[lang][w])
    h.check(h.value("parse", f * n + w + " xx " + w, lang) == f * n + v + " xx " + v, "a number at the end of a long text")


def twice(h, lang, kind, other):
    """Numbers kept apart by words."""
    a = h.word("a", phrases.PLAIN[lang])
    b = h.word("b", phrases.PLAIN[lang])
    t, v = phrases.number(h, "n", lang, kind)
    u, w = phrases.number(h, "m", lang, other)
    h.check(
        h.value("parse", t + " " + a + " " + u + " " + b, lang)
        == str(v) + " " + a + " " + str(w) + " " + b,
        "two numbers and words",
    )


def conjunction(h, lang, kind):
    """A conjunction that joins no two parts of a number stays, in place and
    in its own spelling."""
    a = h.word("a", phrases.PLAIN[lang] + ["0", "12", "٣"])
    c = h.word("c", [x for w in lex.SKIP[lang] for x in sorted({w, w.upper(), w.capitalize()})])
    d = h.word("d", [x for w in lex.SKIP[lang] for x in sorted({w, w.upper(), w.capitalize()})])
    t, v = phrases.number(h, "n", lang, kind)
    v = str(v)
    h.check(h.value("parse", c + " " + t, lang) == c + " " + v, "conjunction first")
    h.check(h.value("parse", t + " " + c, lang) == v + " " + c, "conjunction last")
    h.check(h.value("parse", t + " " + c + " " + a, lang) == v + " " + c + " " + a, "conjunction before a word")
    h.check(h.value("parse", a + " " + c + " " + t, lang) == a + " " + c + " " + v, "conjunction before a number")
    h.check(h.value("parse", t + " " + c + " " + d + " " + a, lang) == v + " " + c + " " + d + " " + a, "two conjunctions")
    h.check(h.value("parse", a + " " + c + " " + a, lang) == a + " " + c + " " + a, "no number")
    r = h.value("parse", t + " " + c + ", " + a, lang)
    h.check(r.replace(" ", "") == v + c + "," + a, "conjunction before a comma")


GLUE = ["_", "__", "2", "07", "x", "ß", "٣", "ª", "一", "_x_"]


def glued(h, lang):
    """A number word within a longer word or name is no number."""
    w = h.word("w", lex.WORDS[lang] + (list(en.ORDINAL_WORDS) if lang == "en" else []))
    g = h.choice("g", GLUE)
    for t in (w + g, g + w, g + w + g):
        h.check(h.value("parse", t, lang) == t, "a part of a word")
    a = h.word("a", phrases.PLAIN[lang])
    h.check(h.value("parse", a + " " + w + g + " " + a, lang) == a + " " + w + g + " " + a, "a part of a word in a sentence")


def compound(h, lang):
    """Two number words in one longer word."""
    v = lex.WORDS[lang][:: max(1, len(lex.WORDS[lang]) // 12)]
    w = h.word("w", v)
    u = h.word("u", lex.NONZERO_UNITS[lang][:4])
    t = w + h.choice("g", GLUE) + u
    h.check(h.value("parse", t, lang) == t, "two parts of a word")
    h.check(h.value("parse", u + " " + t, lang) == h.value("parse", u, lang) + " " + t, "two parts of a word behind a number")


ALIKE = {}


def alike(h, lang, letters):
    """Words that only look like number words."""
    if lang not in ALIKE:
        ALIKE[lang] = typos.alike(lang, 1, letters)
    t = h.word("t", ALIKE[lang])
    h.check(h.value("parse", t, lang) == t, "a word like a number word")
    w = h.word("w", lex.NONZERO_UNITS[lang])
    v = str(lex.VALUE[lang][w])
    h.check(h.value("parse", w + " " + t + " " + w, lang) == v + " " + t + " " + v, "a word like a number word between numbers")


def only_conjunctions(h, lang):
    c = h.word("c", lex.SKIP[lang] + [w.upper() for w in lex.SKIP[lang]])
    d = h.word("d", lex.SKIP[lang] + [w.upper() for w in lex.SKIP[lang]])
    h.check(h.value("parse", c, lang) == c, "conjunction alone")
    h.check(h.value("parse", c + " " + d, lang) == c + " " + d, "conjunctions alone")


def outer(h, lang):
    """Outer blanks of any kind go, nothing else."""
    a = h.word("a", OUTER)
    b = h.word("b", OUTER)
    w = h.word("w", lex.WORDS[lang] + phrases.PLAIN[lang])
    x = h.word("x", phrases.PLAIN[lang])
    v = h.value("parse", w, lang)
    h.check(h.value("parse", a + w + b, lang) == v, "blanks around a word")
    h.check(h.value("parse", a + w + " " + x + b, lang) == v + " " + x, "blanks around two words")
    h.check(h.value("parse", a + x + "\n" + w + b, lang) == x + "\n" + v, "blanks around lines")
    h.check(h.value("parse", a + b, lang) == "", "nothing but blanks")


OUTER = ["", " ", "  ", "\t", "\n", "\r\n", "\n ", "\x0b", "\x0c", "\x85", "\xa0", "\u2003", "\u2028", "\u3000"]


def squeeze(s):
    return "".join([c for c in s if not c.isspace()])


def punctuation(h, lang):
    """Marks next to a number survive (blanks aside)."""
    m = h.word("m", ["!", "?", ";", ":", ")", "\"", "%", "…", "»", "/", "*", "=", "'"])
    o = h.word("o", ["(", "\"", "«", "¿", "$", "#", "/", "*", "=", "'"])
    w = h.word("w", lex.WORDS[lang])
    v = str(lex.VALUE[lang][w])
    r = h.value("parse", o + " " + w + " " + m, lang)
    h.check(r == o + " " + v + " " + m, "marks")
    if lang != "hi":
        r = h.value("parse", o + w + m, lang)
        h.check(r.replace(" ", "") == o + v + m, "marks without blanks")
        r = h.value("parse", w + m + " x", lang)
        h.check(r.replace(" ", "") == v + m + "x", "mark after a number")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'strings of one to three characters out of about 900; one or two other words with nine kinds of gaps; three other words around numbers of every form; two numbers and two words; a number in a text of 200 words and behind 20,000 words; one or two conjunctions at every place; marks beside words; fourteen kinds of outer blanks; any number word with letters, digits and underscores glued to it, some words glued together by them; every word with one letter left out, doubled, swapped, added, replaced by one of eight letters, or with look-alike letters of other alphabets (70,000 words).',
        "thorough": 'strings of up to five characters, a number behind 40,000 words, three other words, any letter of the alphabet put into a word, every pair of number forms',
    },
    "outside": 'The kind and number of blanks directly behind a number, and between a mark and a number, which the library normalises; soft hyphens, which it drops.',
}


def jobs(tier):
    out = []
    for l in lex.LANGS:
        k = {"lang": l}
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            out.append(("%d characters %s" % (n, l), "strange", {"n": n, **k}))
        out.append(("characters and a number %s" % l, "beside", k))
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(("%d other words %s" % (n, l), "words", {"n": n, **k}))
        ks = phrases.kinds(l)
        for q in ks:
            out.append(("words around %s %s" % (q, l), "around", {"kind": q, **k}))
            for p in ks if tier == "thorough" else [ks[0], ks[-1]]:
                out.append(("%s and %s %s" % (q, p, l), "twice", {"kind": q, "other": p, **k}))
            if lex.SKIP[l]:
                out.append(("conjunction beside %s %s" % (q, l), "conjunction", {"kind": q, **k}))
        if lex.SKIP[l]:
            out.append(("conjunctions %s" % l, "only_conjunctions", k))
        out.append(("very long text %s" % l, "very_long", {"lang": l, "n": 20000 if tier == "quick" else 40000}))
        out.append(("long text %s" % l, "long", {"n": 100 if tier == "quick" else 400, **k}))
        out.append(("outer blanks %s" % l, "outer", k))
        out.append(("part of a word %s" % l, "glued", k))
        out.append(("parts of a word %s" % l, "compound", k))
        out.append(("like a number word %s" % l, "alike", {"letters": 8 if tier == "quick" else 40, **k}))
        out.append(("punctuation %s" % l, "punctuation", k))
    return out
