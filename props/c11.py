"""parse_number and parse_ordinal refuse what is not exactly one number."""
from spec import en, lex, phrases, typos


def first(lang):
    """Words that never give a number word when another is glued to them."""
    known = {lex.base(w) for w in lex.WORDS[lang]}
    return [w for w in lex.WORDS[lang] if not any(lex.base(w + x) in known for x in lex.WORDS[lang])]


FIRST = {l: first(l) for l in lex.LANGS}


def none(h, t, lang, msg):
    h.check(h.value("parse_number", t, lang) is None, msg)
    h.check(h.value("parse_ordinal", t, lang) is None, msg)


def other_word(h, lang, kind):
    """A word that is no number, anywhere."""
    t, v = phrases.number(h, "n", lang, kind)
    o = h.word("o", [w for w in phrases.PLAIN[lang]])
    none(h, o, lang, "no number at all")
    none(h, t + " " + o, lang, "word behind")
    none(h, o + " " + t, lang, "word in front")
    none(h, t + " " + o + " " + t, lang, "word between")


def conjunction(h, lang):
    """Conjunctions alone, or in front of a number."""
    c = h.word("c", lex.SKIP[lang])
    d = h.word("d", lex.SKIP[lang])
    w = h.word("w", lex.WORDS[lang])
    none(h, c, lang, "a conjunction is no number")
    none(h, c + " " + d, lang, "conjunctions are no number")
    none(h, c + " " + w, lang, "conjunction in front")
    none(h, c + " " + d + " " + w, lang, "conjunctions in front")


def blank(h):
    """Blanks and marks only."""
    t = ""
    for i in range(h.choice("n", [0, 1, 2, 3])):
        t = t + h.word("b%d" % i, [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\u2003", "\u2028", "\u3000"])
    lang = h.choice("lang", lex.LANGS + [None])
    none(h, t, lang, "blank text")
    h.check(h.value("parse_fraction", t, lang) is None, "blank text")


def marks(h, lang, n):
    """Marks are no numbers."""
    t = ""
    for i in range(n):
        t = t + h.word("m%d" % i, list("-'’.,!?;:()/*+=%$#@&\"«»…—№_") + ["\xad", " "])
    none(h, t, lang, "marks are no number")


def mark_beside(h, lang):
    """A mark next to a number (other than a conjunction or an apostrophe)."""
    m = h.word("m", list("!?.,;:()/*+=%$#@&\"«»…—№"))
    w = h.word("w", lex.WORDS[lang])
    none(h, m + w, lang, "mark in front")
    none(h, w + m, lang, "mark behind")
    none(h, w + " " + m + " " + w, lang, "mark between")


def glued(h, lang):
    """Two number words written together are no word."""
    a = h.word("a", FIRST[lang])
    b = h.word("b", lex.WORDS[lang])
    h.check(h.value("parse_number", a + b, lang) is None, "glued words")
    if lang == "en" or h.tier == "thorough":
        h.check(h.value("parse_ordinal", a + b, lang) is None, "glued words")


ENDINGS = {
    "en": ["st", "nd", "rd", "s", "ish", "fold", "some", "er", "ty", "teen", "y", "ths", "d", "a", "1", "_"],
    "es": ["s", "avo", "ena", "a", "é", "x", "1", "_"],
    "hi": ["x", "वाँ", "क", "1", "_"],
    "ru": ["ый", "ая", "x", "ъ", "1", "_"],
    "uk": ["ий", "ка", "x", "ь", "1", "_"],
}
BEGINNINGS = {
    "en": ["a", "un", "x", "th", "re", "1", "_"],
    "es": ["veinti", "re", "x", "1", "_"],
    "hi": ["x", "क", "1", "_"],
    "ru": ["полу", "x", "1", "_"],
    "uk": ["пів", "x", "1", "_"],
}


def affixes(h, lang):
    """A number word with letters or digits glued to it is no number word."""
    known = {lex.base(w) for w in lex.WORDS[lang]} | {lex.base(w) for w in en.ORDINAL_WORDS}
    e = h.choice("ending", ENDINGS[lang])
    w = h.word("w", [w for w in lex.WORDS[lang] if lex.base(w + e) not in known])
    none(h, w + e, lang, "letters behind")
    b = h.choice("beginning", BEGINNINGS[lang])
    u = h.word("u", [w for w in lex.WORDS[lang] if lex.base(b + w) not in known])
    none(h, b + u, lang, "letters in front")


ALIKE = {}


def alike(h, lang, letters):
    """Words that only look like number words."""
    if lang not in ALIKE:
        ALIKE[lang] = typos.alike(lang, 1, letters)
    t = h.word("t", ALIKE[lang])
    w = h.word("w", lex.NONZERO_UNITS[lang])
    h.check(h.value("parse_number", t, lang) is None, "a word like a number word")
    h.check(h.value("parse_ordinal", t, lang) is None, "a word like a number word")
    h.check(h.value("parse_number", t + " " + w, lang) is None, "a word like a number word and a number")


def several(h, lang):
    """Two numbers are not one."""
    a = h.word("a", lex.NONZERO_UNITS[lang])
    b = h.word("b", lex.NONZERO_UNITS[lang])
    c = h.word("c", lex.DIRECTS[lang])
    none(h, a + " " + b, lang, "two units")
    none(h, a + " " + c, lang, "unit, teen")
    none(h, c + " " + a, lang, "teen, unit")
    none(h, c + " " + b + " " + a, lang, "three numbers")


def negative(h, lang):
    """No sign in front of number words."""
    w = h.word("w", lex.WORDS[lang])
    s = h.word("s", ["-", "+", "−", "- ", "+ "])
    none(h, s + w, lang, "sign in front")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'numbers of every form with other words at each place; up to two conjunctions; up to three blanks; up to two marks; two number words glued together; common endings and beginnings glued to a word; every word with one letter left out, doubled, swapped, added, replaced by one of eight letters, or with look-alike letters of other alphabets (70,000 words); two and three numbers in a row; signs.',
        "thorough": 'as quick, with three marks, 14 letters put in, gluing for parse_ordinal in all languages',
    },
    "outside": "'two and' is read as 2 by the library; glued words that contain another word as part ('seven'+'teen' style) are excluded by the frozen lexicon.",
}


def jobs(tier):
    out = [("blank", "blank", {})]
    for l in lex.LANGS:
        for k in phrases.kinds(l):
            out.append(("other word, %s %s" % (k, l), "other_word", {"lang": l, "kind": k}))
        if lex.SKIP[l]:
            out.append(("conjunctions %s" % l, "conjunction", {"lang": l}))
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(("%d marks %s" % (n, l), "marks", {"lang": l, "n": n}))
        out.append(("mark beside %s" % l, "mark_beside", {"lang": l}))
        out.append(("affixes %s" % l, "affixes", {"lang": l}))
        out.append(("glued %s" % l, "glued", {"lang": l}))
        out.append(("several %s" % l, "several", {"lang": l}))
        out.append(("like a number word %s" % l, "alike", {"lang": l, "letters": 8 if tier == "quick" or l == "ru" else 14}))
        out.append(("sign %s" % l, "negative", {"lang": l}))
    return out
