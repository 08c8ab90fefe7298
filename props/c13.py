"""Numbers written in digits."""
from spec import lex, phrases

ASCII = list("0123456789")
# decimal digits of several scripts
DECIMAL = {}
for _start in (0x30, 0x660, 0x6F0, 0x966, 0x9E6, 0xE50, 0xFF10, 0x1D7CE, 0x104A0):
    for _i in range(10):
        DECIMAL[chr(_start + _i)] = _i
# numeric, not decimal: no digits of a number
NUMERIC = list("½¼¾²³¹①②⅓ⅷ五三十४"[:-1]) + ["፩", "𐄇", "㉈"]
BLANKS = ["", " ", "  ", "\t", "\n", " \n", "\x1c", "\x1f", "\x0b", "\x85", "\xa0", "\u2003", "\u3000"]


def number(h, n, domain, lang):
    """n digits, blanks around: the number in decimal notation."""
    lang = h.choice("lang", lang)
    t = ""
    v = 0
    for i in range(n):
        c = h.word("d%d" % i, domain)
        t = t + c
        v = v * 10 + DECIMAL[c]
    a = h.word("left", BLANKS)
    b = h.word("right", BLANKS)
    h.check(h.value("parse_number", a + t + b, lang) == v, "parse_number of digits")


def ordinal(h, n):
    """parse_ordinal takes digits too."""
    lang = h.choice("lang", lex.LANGS + [None])
    t = ""
    v = 0
    for i in range(n):
        c = h.word("d%d" % i, ASCII)
        t = t + c
        v = v * 10 + DECIMAL[c]
    h.check(h.value("parse_ordinal", t, lang) == v, "parse_ordinal of digits")


def kept(h, n):
    """parse leaves digits, and text with them, alone."""
    lang = h.choice("lang", lex.LANGS)
    t = ""
    for i in range(n):
        t = t + h.word("d%d" % i, ASCII + [".", ",", "-", " ", "٣", "½"] if 0 < i < n - 1 else ASCII + ["½"])
    h.check(h.value("parse", t, lang) == t, "digits changed")
    o = h.word("o", phrases.PLAIN[lang])
    h.check(h.value("parse", o + " " + t + " " + o, lang) == o + " " + t + " " + o, "digits in a sentence changed")


def beside(h, lang):
    """Digits next to number words are a number of their own."""
    d = h.word("d", [str(i) for i in range(0, 2000, 7)])
    w = h.word("w", lex.WORDS[lang])
    v = str(lex.VALUE[lang][w])
    h.check(h.value("parse", d + " " + w, lang) == d + " " + v, "digits in front of a word")
    h.check(h.value("parse", w + " " + d, lang) == v + " " + d, "digits behind a word")
    h.check(h.value("parse", w + " " + d + " " + w, lang) == v + " " + d + " " + v, "digits between words")
    h.check(h.value("parse_number", d + " " + w, lang) is None, "digits and a word")
    h.check(h.value("parse_number", w + " " + d, lang) is None, "a word and digits")


def joined(h, lang):
    """A conjunction or mark between digits and words, on either side."""
    d = h.word("d", ["0", "1", "5", "12", "100", "2020", "٣", "½", "५"])
    w = h.word("w", lex.WORDS[lang])
    v = str(lex.VALUE[lang][w])
    c = h.word("c", [x for w in lex.SKIP[lang] for x in sorted({w, w.upper()})] + ["x", "&", "or"])
    e = h.word("e", lex.SKIP[lang] + ["x"])
    h.check(h.value("parse", w + " " + c + " " + d, lang) == v + " " + c + " " + d, "digits behind a conjunction")
    h.check(h.value("parse", d + " " + c + " " + w, lang) == d + " " + c + " " + v, "digits in front of a conjunction")
    h.check(
        h.value("parse", w + " " + c + " " + d + " " + e + " " + w, lang) == v + " " + c + " " + d + " " + e + " " + v,
        "digits between conjunctions",
    )
    h.check(h.value("parse", w + " " + d + " " + d + " " + w, lang) == v + " " + d + " " + d + " " + v, "two numbers in digits")
    h.check(h.value("parse_number", w + " " + c + " " + d, lang) is None, "a word, a conjunction and digits")
    h.check(h.value("parse_number", d + " " + c + " " + w, lang) is None, "digits, a conjunction and a word")


def not_decimal(h):
    """Numeric characters that are no decimal digits, and marks in numbers."""
    lang = h.choice("lang", lex.LANGS)
    c = h.word("c", NUMERIC)
    d = h.word("d", ASCII)
    h.check(h.value("parse_number", c, lang) is None, "numeric character")
    h.check(h.value("parse_number", d + c, lang) is None, "numeric character behind a digit")
    h.check(h.value("parse_number", c + d, lang) is None, "numeric character in front of a digit")
    m = h.word("m", list(".,_-+:/ eE%"))
    h.check(h.value("parse_number", d + m + d, lang) is None, "mark between digits")
    s = h.word("s", list("+-.,_%$") + ["−"])
    h.check(h.value("parse_number", s + d, lang) is None, "mark in front of a digit")
    h.check(h.value("parse_number", d + s, lang) is None, "mark behind a digit")


ENDS = ["st", "nd", "rd", "th", "ST", "Th", "s", "k", "K", "m", "M", "bn", "mil", "x", "e5", "E3", "er", "o", "º", "ª", "%", "°", "€", "-th", "-й", "й", "-го", "वाँ", "'s", "’s", "_000", " 000", ",000", ".0", ":30", "½", "²"]


def ends(h):
    """Digits with an ending, unit, power or mark behind or before them."""
    lang = h.choice("lang", lex.LANGS)
    t = h.word("d", [str(i) for i in range(40)] + ["100", "101", "1000", "2020", "12345678901", "٣", "１２"]) + h.word("end", ENDS)
    o = h.word("o", phrases.PLAIN[lang])
    h.check(h.value("parse", t, lang) == t, "digits with an ending changed")
    h.check(h.value("parse", o + " " + t + " " + o, lang) == o + " " + t + " " + o, "digits with an ending in a sentence changed")
    h.check(h.value("parse_number", t, lang) is None, "digits with an ending read as a number")
    h.check(h.value("parse_ordinal", t, lang) is None, "digits with an ending read as a number")


def sign(h):
    """Signs and currencies in front."""
    lang = h.choice("lang", lex.LANGS)
    t = h.word("sign", ["-", "+", "−", "±", "$", "€", "#", "~", "x", "No", "№", "0x", "0b", ".", ",", "-.", "1.", "1,", "_"]) + h.word("d", [str(i) for i in range(40)] + ["100", "2020", "٣", "１２"])
    h.check(h.value("parse", t, lang) == t, "digits with a sign changed")
    h.check(h.value("parse_number", t, lang) is None, "digits with a sign read as a number")
    h.check(h.value("parse_ordinal", t, lang) is None, "digits with a sign read as a number")


def fraction(h, n):
    """Fractions of digits."""
    lang = h.choice("lang", lex.LANGS)
    t = ""
    u = ""
    for i in range(n):
        t = t + h.word("a%d" % i, ASCII[1:] if i == 0 else ASCII)
        u = u + h.word("b%d" % i, ASCII[1:] if i == 0 else ASCII)
    sep = h.choice("sep", ["/", " / ", " over ", " by ", " divided by "])
    h.check(h.value("parse_fraction", t + sep + u, lang) == t + "/" + u, "fraction of digits")
    h.check(h.value("parse_fraction", t, lang) is None, "digits without a separator")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'up to eight ASCII digits, eight other lengths up to 50; up to four digits of nine scripts, eight and twenty; 37 endings and 19 signs with twelve kinds of blanks; up to five characters of digits and marks kept by parse; 286 digit strings beside any number word; nine of several scripts with conjunctions between; 16 numeric characters and all ASCII marks.',
        "thorough": 'up to eight characters kept',
    },
    "outside": 'integers of more than 4300 digits, which Python refuses to convert.',
}


def jobs(tier):
    L = lex.LANGS + [None]
    out = []
    top = 9
    for n in range(1, top):
        out.append(("%d digits" % n, "number", {"n": n, "domain": ASCII, "lang": L}))
        out.append(("%d digits, parse_ordinal" % n, "ordinal", {"n": n}))
        if n < (6 if tier == "quick" else 9):
            out.append(("%d characters kept" % n, "kept", {"n": n}))
        if n < 5:
            out.append(("%d digits of any script" % n, "number", {"n": n, "domain": list(DECIMAL), "lang": ["en", "hi", None]}))
            out.append(("%d digits over %d" % (n, n), "fraction", {"n": n}))
    for l in lex.LANGS:
        out.append(("beside words %s" % l, "beside", {"lang": l}))
        out.append(("conjunctions %s" % l, "joined", {"lang": l}))
    for n in (10, 12, 16, 19, 20, 25, 32, 50):
        out.append(("%d digits" % n, "number", {"n": n, "domain": ASCII, "lang": ["en", "hi", None]}))
    for n in (8, 20):
        out.append(("%d digits of any script" % n, "number", {"n": n, "domain": list(DECIMAL), "lang": ["en"]}))
    out.append(("digits with endings", "ends", {}))
    out.append(("digits with signs", "sign", {}))
    out.append(("not decimal", "not_decimal", {}))
    return out
