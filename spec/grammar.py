"""Canonical number phrases, built from symbolic words.

A phrase is (text, value); every word of it is a variable over the words of
its kind, so one phrase stands for all numbers of that form."""
from spec import lex


def es():
    v = lex.VALUE["es"]
    d = lex.DIRECTS["es"]
    hundreds = lex.HUNDREDWORDS["es"]
    return {
        "lang": "es",
        "value": v,
        "forms": [
            [lex.NONZERO_UNITS["es"]],
            [d],
            [lex.TENWORDS["es"]],
            [lex.TENWORDS["es"], lex.NONZERO_UNITS["es"]],
        ],
        "joint": " y ",
        "hundreds": [w for w in hundreds if w != "cien"],
        "hundreds_alone": [w for w in hundreds if w != "ciento"],
        "hundred": None,
    }


def hi():
    return {
        "lang": "hi",
        "value": lex.VALUE["hi"],
        "forms": [[lex.NONZERO_UNITS["hi"]], [lex.DIRECTS["hi"]]],
        "joint": " ",
        "hundreds": lex.NONZERO_UNITS["hi"],
        "hundreds_alone": lex.NONZERO_UNITS["hi"],
        "hundred": "सौ",
    }


def slavic(l):
    return {
        "lang": l,
        "value": lex.VALUE[l],
        "forms": [
            [lex.NONZERO_UNITS[l]],
            [lex.DIRECTS[l]],
            [lex.TENWORDS[l]],
            [lex.TENWORDS[l], lex.NONZERO_UNITS[l]],
        ],
        "joint": " ",
        "hundreds": lex.HUNDREDWORDS[l],
        "hundreds_alone": lex.HUNDREDWORDS[l],
        "hundred": None,
    }


LANG = {"es": es(), "hi": hi(), "ru": slavic("ru"), "uk": slavic("uk")}


def shapes(g, hundreds=True, bare=False):
    """(with a hundred?, form of the rest or None); None: no words at all."""
    out = [None] if bare else []
    n = len(g["forms"])
    for f in range(n):
        out.append((False, f))
    if hundreds:
        out.append((True, None))
        for f in range(n):
            out.append((True, f))
    return out


def below_1000(h, tag, g, shape):
    hundred, form = shape
    v = g["value"]
    text = ""
    value = 0
    if hundred:
        if form is None:
            w = h.word(tag + "h", g["hundreds_alone"])
        else:
            w = h.word(tag + "h", g["hundreds"])
        text = w
        if g["hundred"]:
            text = text + " " + g["hundred"]
            value = v[w] * 100
        else:
            value = v[w]
    if form is not None:
        if hundred:
            text = text + " "
        for k, words in enumerate(g["forms"][form]):
            w = h.word(tag + "w%d" % k, words)
            text = text + (g["joint"] if k else "") + w
            value = value + v[w]
    return text, value


def scaled(h, tag, g, shape, scale):
    """A group and its scale word; shape None: the scale word alone."""
    v = g["value"]
    if shape is None:
        return scale, v[scale]
    t, x = below_1000(h, tag, g, shape)
    return t + " " + scale, x * v[scale]


def descending(h, g, n, words, shapes_, last):
    """`n` groups with symbolic scale words of descending value, then a last
    group (`last`: its shapes, or None)."""
    v = g["value"]
    parts = []
    total = 0
    prev = None
    for i in range(n):
        s = h.word("scale%d" % i, words)
        if prev is not None:
            h.assume(v[prev] > v[s])
        prev = s
        t, x = scaled(h, "g%d" % i, g, h.choice("shape%d" % i, shapes_), s)
        parts.append(t)
        total = total + x
    if last:
        t, x = below_1000(h, "u", g, h.choice("last", last))
        parts.append(t)
        total = total + x
    return " ".join(parts), total


def agree(h, text, value, lang):
    h.check(h.value("parse_number", text, lang) == value, "parse_number is not the value")
    h.check(h.value("parse", text, lang) == str(value), "parse does not give the digits")
