"""Fractions."""
from spec import lex, phrases

SEPARATORS = ["divided by", "over", "by", "/"]
FORMS = [" divided by ", " over ", " by ", " / ", "/", " Divided By ", " OVER ", " By ", "  over\t", "\nby "]


def both(h, lang, left, right, seps):
    a, x = phrases.number(h, "a", lang, left)
    b, y = phrases.number(h, "b", lang, right)
    sep = h.choice("sep", seps)
    r = h.value("parse_fraction", a + sep + b, lang)
    h.check(r == str(x) + "/" + str(y), "fraction")


def kinds(h, lang, seps):
    ks = phrases.kinds(lang)
    i = h.choice("left", ks)
    j = h.choice("right", ks)
    both(h, lang, i, j, seps)


# scale words that form a long number, highest first
LADDER = {
    "en": ["sextillion", "quintillion", "quadrillion", "trillion", "billion", "million", "thousand"],
    "es": ["trillones", "billones", "millones", "mil"],
    "hi": ["खरब", "अरब", "करोड़", "लाख", "हज़ार"],
    "ru": ["квадриллионов", "триллионов", "миллиардов", "миллионов", "тысяч"],
    "uk": ["секстильйон", "квінтильйон", "квадрильйон", "трильйон", "мільярдів", "мільйонів", "тисяч"],
}
# the longest number below a thousand that ends in a unit
FRONT = {"en": ("seven hundred and seventy-", 770), "es": ("cuatrocientos cincuenta y ", 450), "hi": ("", 0), "ru": ("девятьсот восемьдесят ", 980), "uk": ("девятсот вісімдесят ", 980)}


def long(h, lang, left, right):
    """Numbers with all scales: over two hundred letters."""
    v = lex.VALUE[lang]
    f, n = FRONT[lang]

    def side(tag, full):
        t = ""
        x = 0
        for i, s in enumerate(LADDER[lang]):
            w = h.word(tag + str(i), lex.NONZERO_UNITS[lang] if lang != "es" else ["dos", "tres", "seis", "nueve"])
            if not full and i:
                continue
            t = t + f + w + " " + s + " "
            x = x + (n + v[w]) * v[s]
        w = h.word(tag + "u", lex.NONZERO_UNITS[lang])
        return t + f + w, x + n + v[w]

    a, x = side("a", left)
    b, y = side("b", right)
    sep = h.choice("sep", FORMS[:5])
    r = h.value("parse_fraction", a + sep + b, lang)
    h.check(r == str(x) + "/" + str(y), "long fraction")


def digits(h):
    """Digits on one side or both."""
    a = h.word("a", [str(i) for i in range(1000)])
    b = h.word("b", [str(i) for i in range(1, 1000)])
    w = h.word("w", lex.WORDS["en"])
    v = lex.VALUE["en"][w]
    sep = h.choice("sep", FORMS)
    h.check(h.value("parse_fraction", a + sep + b, "en") == a + "/" + b, "digits")
    h.check(h.value("parse_fraction", w + sep + b, "en") == str(v) + "/" + b, "digits")
    h.check(h.value("parse_fraction", a + sep + w, "en") == a + "/" + str(v), "digits")


def not_a_number(h, lang):
    """A side that is not a number: no fraction."""
    a = h.word("a", lex.WORDS[lang])
    o = h.word("o", ["", " ", "and", "of"] + [w for w in phrases.OTHER[lang] if "/" not in w and "by" not in w and "over" not in w])
    sep = h.choice("sep", FORMS)
    h.check(h.value("parse_fraction", a + sep + o, lang) is None, "right side")
    h.check(h.value("parse_fraction", o + sep + a, lang) is None, "left side")
    p = h.word("p", [w for w in phrases.PLAIN[lang] if w not in ("by", "over")])
    h.check(h.value("parse_fraction", a + sep + a + " " + p + " " + a, lang) is None, "right side has more")


def sides(h, lang):
    """The result is the two sides as parse_number reads them."""
    words = [""] + lex.WORDS[lang] + phrases.PLAIN[lang] + ["7", "40"] + lex.SKIP[lang]
    a1 = h.word("a1", words)
    a2 = h.word("a2", words)
    b1 = h.word("b1", words)
    h.assume(a1 != "over")
    h.assume(a1 != "by")
    h.assume(a2 != "over")
    h.assume(a2 != "by")
    sep = h.choice("sep", [" over ", "/"])
    left = a1 + " " + a2
    n = h.value("parse_number", left, lang)
    d = h.value("parse_number", b1, lang)
    r = h.value("parse_fraction", left + sep + b1, lang)
    if n is None or d is None:
        h.check(r is None, "a side is not a number")
    else:
        h.check(r == str(n) + "/" + str(d), "not the two sides")


def no_separator(h, lang):
    words = lex.WORDS[lang] + [w for w in phrases.PLAIN[lang] if w not in ("over", "by")] + ["7"]
    a = h.word("a", words)
    b = h.word("b", words)
    h.check(h.value("parse_fraction", a + " " + b, lang) is None, "no separator")
    h.check(h.value("parse_fraction", a, lang) is None, "no separator")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'fractions of two numbers of any of the forms in spec/phrases.py, every separator and case; numbers with five to eight groups (over two hundred letters) on one side or both; any up to two words on the left and one on the right; three-digit digits on either side; one non-number on either side.',
        "thorough": 'as quick, with all separators in every language',
    },
    "outside": 'Separators inside words; several separators in one text; denominators of zero are not refused by the library.',
}


def jobs(tier):
    out = []
    for l in phrases.LANGS:
        out.append(("forms " + l, "kinds", {"lang": l, "seps": FORMS[:5] + FORMS[6:7] if tier == "quick" and l != "en" else FORMS}))
        out.append(("not a number " + l, "not_a_number", {"lang": l}))
        out.append(("sides " + l, "sides", {"lang": l}))
        out.append(("no separator " + l, "no_separator", {"lang": l}))
        for x, y in ((True, False), (False, True), (True, True)):
            out.append(("long %s%s %s" % ("left" * x, "right" * y, l), "long", {"lang": l, "left": x, "right": y}))
    out.append(("digits", "digits", {}))
    return out
