"""Spelling variants that do not matter: case, accents, soft hyphens,
apostrophes, the kind of blank, hyphen or blank in English compounds."""
import unicodedata

from spec import en, lex, phrases

SOFT = "\xad"


def _accented():
    """Letters by their lower-case base, accents on top (one code point)."""
    out = {}
    for lo, hi in ((0xC0, 0x250), (0x370, 0x530), (0x1E00, 0x1F00)):
        for c in range(lo, hi):
            ch = chr(c)
            if not ch.isalpha() or len(ch.lower()) != 1:
                continue
            b = lex.base(ch.lower())
            if len(b) == 1 and b != ch.lower():
                out.setdefault(b, []).append(ch)
    return out


ACCENTED = _accented()
MARKS = {"\u0901": ["\u0901", "\u0902"], "\u0902": ["\u0902", "\u0901"], "\u093c": ["\u093c", ""]}


def pieces(word):
    """The word cut into single letters."""
    out = []
    for c in word:
        out.append(c)
    return out


def case_variants(c):
    out = [c]
    for v in (c.upper(), c.title()):
        if len(v) == 1 and v.lower() == c and v not in out:
            out.append(v)
    return out


def accent_variants(c):
    if c in MARKS:
        return MARKS[c]
    b = lex.base(c)
    out = [c]
    if len(b) == 1:
        if b not in out:
            out.append(b)
        out += [v for v in ACCENTED.get(b, ()) if v not in out]
    return out


def soft(cs):
    return cs + [c + SOFT for c in cs]


def spelled(h, word, variants):
    t = ""
    for i, c in enumerate(pieces(word)):
        vs = variants(c)
        t = t + (h.word("l%d" % i, vs) if len(vs) > 1 else vs[0])
    return t


def read(h, lang, t, v):
    h.check(h.value("parse_number", t, lang) == v, "parse_number differs")
    h.check(h.value("parse", t, lang) == str(v), "parse differs")


def case(h, lang, words):
    """Every letter in upper or lower case."""
    w = h.choice("word", words)
    read(h, lang, spelled(h, w, case_variants), lex.VALUE[lang][w])


def accents(h, lang, words):
    """Any letter with another accent, or none, in any case."""
    w = h.choice("word", words)
    read(h, lang, spelled(h, w, accent_variants), lex.VALUE[lang][w])


def soft_hyphens(h, lang, words):
    """A soft hyphen behind any letters, in front, in any case."""
    w = h.choice("word", words)
    t = h.word("front", ["", SOFT]) + spelled(h, w, lambda c: soft(case_variants(c)))
    read(h, lang, t, lex.VALUE[lang][w])


def apostrophes(h, lang, words):
    """parse_number ignores apostrophes."""
    w = h.choice("word", words)
    t = h.word("front", ["", "'", "’"]) + spelled(h, w, lambda c: [c, c + "'", c + "’", c + "’'’"])
    h.check(h.value("parse_number", t, lang) == lex.VALUE[lang][w], "parse_number differs")


def apostrophes_in_numbers(h, lang, kind):
    """Apostrophes around the words of a number."""
    t, v = phrases.number(h, "n", lang, kind)
    p = t.split(" ")
    u = h.word("first", ["", "'"]) + p[0]
    for i, w in enumerate(p[1:]):
        u = u + h.word("end%d" % i, ["", "'", "’"]) + " " + h.word("start%d" % i, ["", "'", "’"]) + w
    u = u + h.word("last", ["", "'", "’", "''"])
    h.check(h.value("parse_number", u, lang) == v, "parse_number differs")


def conjunctions(h, lang, variants):
    """A conjunction in any spelling joins, or stays as it is."""
    c = h.choice("word", [w for w in lex.SKIP[lang] if w.isalpha()])
    s = spelled(h, c, accent_variants if variants == "accents" else lambda x: soft(case_variants(x)))
    if lang == "en":
        a, b, x = h.word("a", en.ONES), h.word("b", en.TENS), None
        a, x = a + " hundred", en.ONE[a] * 100
        v = x + en.TEN[b]
    else:
        a = h.word("a", lex.TENWORDS[lang])
        b = h.word("b", lex.NONZERO_UNITS[lang])
        v = lex.VALUE[lang][a] + lex.VALUE[lang][b]
    read(h, lang, a + " " + s + " " + b, v)


def ordinal_case(h, words, accents):
    w = h.choice("word", words)
    v = en.ORDINAL_WORDS[w]
    t = spelled(h, w, accent_variants if accents else lambda c: soft(case_variants(c)))
    h.check(h.value("parse_ordinal", t, "en") == v, "parse_ordinal differs")
    h.check(h.value("parse", t, "en") == str(v), "parse differs")


BLANKS = [" ", "  ", "\t", "\n", "\r\n", "\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\u2003", "\u2009", "\u2028", "\u202f", "\u3000", " \t ", " \n\n\n ", " " * 40]


def blanks(h, lang, kind):
    """Any blank between and around the words of a number."""
    t, v = phrases.number(h, "n", lang, kind)
    p = t.split(" ")
    u = p[0]
    for i, w in enumerate(p[1:]):
        u = u + h.word("blank%d" % i, BLANKS) + w
    a = h.word("left", [""] + BLANKS)
    b = h.word("right", [""] + BLANKS)
    read(h, lang, a + u + b, v)
    h.check(h.value("parse_ordinal", a + u + b, lang) == v, "parse_ordinal differs")


def ordinal_blanks(h):
    """Ordinals of several words."""
    a = h.word("a", en.ONES)
    b = h.word("b", en.TENS)
    o = h.word("o", [w for w in en.ORDINAL_WORDS if en.ORDINAL_WORDS[w] < 10 and en.ORDINAL_WORDS[w]])
    j = h.word("j", BLANKS)
    k = h.word("k", BLANKS + ["-", " - "])
    t = h.word("left", [""] + BLANKS) + a + j + "hundred" + j + b + k + o + h.word("right", [""] + BLANKS)
    v = en.ONE[a] * 100 + en.TEN[b] + en.ORDINAL_WORDS[o]
    h.check(h.value("parse_ordinal", t, "en") == v, "parse_ordinal differs")
    h.check(h.value("parse", t, "en") == str(v), "parse differs")


def hyphen(h):
    """English compounds: hyphen, blank, or both."""
    a = h.word("a", en.TENS)
    b = h.word("b", en.ONES)
    g = h.word("g", ["-", " ", " - ", "- ", " -", "  ", "\xad-", "-\xad"])
    read(h, "en", a + g + b, en.TEN[a] + en.ONE[b])
    c = h.word("c", en.ONES)
    j = h.word("j", [" and ", " AND ", " And ", " ", "  and  ", "\nand ", "-and-", " - "])
    read(h, "en", c + " hundred" + j + a + g + b, en.ONE[c] * 100 + en.TEN[a] + en.ONE[b])


def fraction_case(h, lang):
    a = h.word("a", lex.WORDS[lang])
    b = h.word("b", lex.WORDS[lang])
    sep = h.choice("sep", ["over", "by", "divided by"])
    s = spelled(h, sep, case_variants)
    x, y = lex.VALUE[lang][a], lex.VALUE[lang][b]
    h.check(h.value("parse_fraction", a + " " + s + " " + b, lang) == str(x) + "/" + str(y), "parse_fraction differs")
    h.check(h.value("parse_fraction", a.upper() + "/" + b.title(), lang) == str(x) + "/" + str(y), "parse_fraction differs")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'every word of every language with each letter independently in either case, with any precomposed accent, with an apostrophe behind it, and behind and before the words of numbers of every form; soft hyphens for every third word; conjunctions in any case, with accents and soft hyphens; 17 kinds of blanks at every gap of numbers of every form.',
        "thorough": 'as quick, soft hyphens and apostrophes for every word',
    },
    "outside": 'Accents written as separate combining characters in the text (not recognised by the library); several accents on a letter beyond those of one code point.',
}


def jobs(tier):
    out = []
    for l in lex.LANGS:
        ws = lex.WORDS[l]
        if l != "hi":
            out.append(("case %s" % l, "case", {"lang": l, "words": ws}))
        out.append(("accents %s" % l, "accents", {"lang": l, "words": ws}))
        some = ws if tier == "thorough" else ws[::3]
        out.append(("soft hyphens %s" % l, "soft_hyphens", {"lang": l, "words": some}))
        out.append(("apostrophes %s" % l, "apostrophes", {"lang": l, "words": some}))
        for k in phrases.kinds(l):
            out.append(("blanks in %s %s" % (k, l), "blanks", {"lang": l, "kind": k}))
            out.append(("apostrophes in %s %s" % (k, l), "apostrophes_in_numbers", {"lang": l, "kind": k}))
        if any(w.isalpha() for w in lex.SKIP[l]):
            for k in ("accents", "case"):
                out.append(("conjunctions, %s %s" % (k, l), "conjunctions", {"lang": l, "variants": k}))
        out.append(("fractions %s" % l, "fraction_case", {"lang": l}))
    out.append(("ordinals", "ordinal_case", {"words": list(en.ORDINAL_WORDS), "accents": False}))
    out.append(("ordinals, accents", "ordinal_case", {"words": list(en.ORDINAL_WORDS), "accents": True}))
    out.append(("ordinals, blanks", "ordinal_blanks", {}))
    out.append(("hyphens", "hyphen", {}))
    return out
