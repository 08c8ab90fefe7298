"""English ordinals."""
from spec import en
from props.c01 import SHAPES, hundreds_part


def last_part(h, hundred, sub, conj, phrases=en.SUB_PHRASES):
    """A last group in ordinal form: (cardinal text, ordinal text, value)."""
    card = ""
    text = ""
    value = 0
    if hundred:
        u = h.word("uh", en.ONES)
        card = u + " hundred"
        text = u + (" hundred" if sub else " hundredth")
        value = en.ONE[u] * 100
    if sub:
        p = h.word("us", phrases)
        glue = ("" if not hundred else " and " if conj else " ")
        card = card + glue + p
        text = text + glue + en.SUB_ORDINAL[p]
        value = value + en.SUB[p]
    return card, text, value


def verdict(h, card, text, value):
    h.check(h.value("parse_ordinal", text, "en") == value, "parse_ordinal is not the value")
    h.check(h.value("parse", text, "en") == str(value), "parse does not give the digits")
    h.check(h.value("parse_ordinal", card, "en") == value, "parse_ordinal of the cardinal")
    h.check(h.value("parse_number", text, "en") is None, "parse_number accepts an ordinal")


def simple(h):
    w = h.word("w", list(en.ORDINAL_WORDS))
    v = en.ORDINAL_WORDS[w]
    h.check(h.value("parse_ordinal", w, "en") == v, "parse_ordinal is not the value")
    h.check(h.value("parse", w, "en") == str(v), "parse does not give the digits")
    h.check(h.value("parse_number", w, "en") is None, "parse_number accepts an ordinal")


def ordinal(h, groups, end, classes=False):
    """`groups` scale groups; the number ends in a scale word (end "scale") or
    in a group below 1000 (end "units")."""
    text = ""
    value = 0
    prev = None
    phrases = en.SUB_PHRASES
    for i in range(groups):
        t, v = hundreds_part(h, i, *h.choice("shape%d" % i, SHAPES))
        s = h.word("scale%d" % i, en.SCALES)
        if prev is not None:
            h.assume(en.RANK[prev] > en.RANK[s])
        prev = s
        value = value + v * en.SCALE[s]
        text = text + (" " if i else "") + t + " "
        if i < groups - 1 or end == "units":
            text = text + s
    if end == "scale":
        verdict(h, text + s, text + en.SCALE_ORDINAL[s], value)
        return
    hundred, sub, conj = h.choice("last", SHAPES)
    c, t, v = last_part(h, hundred, sub, conj)
    glue = " " if groups else ""
    if groups and not hundred and h.choice("and", [False, True]):
        glue = " and "
    verdict(h, text + glue + c, text + glue + t, value + v)


def longest(h, end):
    """All scales."""
    text = ""
    value = 0
    for i, s in enumerate(en.SCALES[::-1]):
        u = h.word("u%d" % i, en.ONES)
        text = text + ("nine hundred and ninety-" if i % 2 else "two hundred seventy ") + u + " "
        value = value + ((990 if i % 2 else 270) + en.ONE[u]) * en.SCALE[s]
        if s == "thousand" and end == "scale":
            verdict(h, text + s, text + en.SCALE_ORDINAL[s], value)
            return
        text = text + s + " "
    c, t, v = last_part(h, *h.choice("last", SHAPES))
    verdict(h, text + c, text + t, value + v)


def in_text(h):
    """An ordinal ends its number: what follows starts a new one."""
    p = h.word("p", en.SUB_PHRASES)
    q = h.word("q", en.ONES + en.TEENS + en.TENS + en.SCALES)
    v = {**en.ONE, **en.TEEN, **en.TEN, **en.SCALE}
    sep = h.choice("sep", [" ", " and ", ", ", " of "])
    r = h.value("parse", "the " + en.SUB_ORDINAL[p] + sep + q, "en")
    h.check(r == "the " + str(en.SUB[p]) + sep + str(v[q]), "ordinal in a sentence")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'English ordinals with up to two scale words at the end, one before a last group, and with all seven; ordinals in a sentence before any number word.',
        "thorough": 'two scale words before a last group, three scale words',
    },
    "outside": "Misspelt ordinals ('nineth') are accepted by the library; plural ordinals ('thirds').",
}


def jobs(tier):
    out = [
        ("one word", "simple", {}),
        ("1..999", "ordinal", {"groups": 0, "end": "units"}),
        ("1 scale", "ordinal", {"groups": 1, "end": "scale"}),
        ("1 scale+units", "ordinal", {"groups": 1, "end": "units"}),
        ("2 scales", "ordinal", {"groups": 2, "end": "scale"}),
        ("all scales", "longest", {"end": "scale"}),
        ("all scales+units", "longest", {"end": "units"}),
        ("in a sentence", "in_text", {}),
    ]
    if tier == "thorough":
        out.append(("2 scales+units", "ordinal", {"groups": 2, "end": "units"}))
        out.append(("3 scales", "ordinal", {"groups": 3, "end": "scale"}))
    return out
