"""English cardinals."""
from spec import en


def hundreds_part(h, i, hundred, sub, conj, phrases=en.SUB_PHRASES):
    """Words and value of one group of three digits."""
    text = ""
    value = 0
    if hundred:
        u = h.word("h%d" % i, en.ONES)
        text = u + " hundred"
        value = en.ONE[u] * 100
    if sub:
        p = h.word("s%d" % i, phrases)
        if hundred:
            text = text + (" and " if conj else " ")
        text = text + p
        value = value + en.SUB[p]
    return text, value


SHAPES = [(0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)]


def cardinal(h, groups, last_units):
    """`groups` groups with symbolic scale words in descending order, then
    possibly a last group without a scale word."""
    text = ""
    value = 0
    prev = None
    n = groups + (1 if last_units else 0)
    for i in range(n):
        hundred, sub, conj = h.choice("shape%d" % i, SHAPES)
        t, v = hundreds_part(h, i, hundred, sub, conj)
        if i < groups:
            s = h.word("scale%d" % i, en.SCALES)
            if prev is not None:
                h.assume(en.RANK[prev] > en.RANK[s])
            prev = s
            t = t + " " + s
            v = v * en.SCALE[s]
        elif i and not hundred:
            if h.choice("and", [False, True]):
                text = text + " and"
        text = text + (" " if i else "") + t
        value = value + v
    h.check(h.value("parse_number", text, "en") == value, "parse_number is not the value")
    h.check(h.value("parse", text, "en") == str(value), "parse does not give the digits")


def uniform(h, groups, last_units):
    """Long numbers: the groups have the same shape and form of words, the
    scales are every descending selection of `groups` of them."""
    shape = h.choice("shape", SHAPES)
    phrases = h.choice("form", en.CLASSES if shape[1] else en.CLASSES[:1])
    text = ""
    value = 0
    left = en.SCALES[::-1]
    n = groups + (1 if last_units else 0)
    for i in range(n):
        t, v = hundreds_part(h, i, *shape, phrases)
        if i < groups:
            j = h.choice("skip%d" % i, range(len(left) - (groups - i) + 1))
            t = t + " " + left[j]
            v = v * en.SCALE[left[j]]
            left = left[j + 1 :]
        text = text + (" " if i else "") + t
        value = value + v
    h.check(h.value("parse_number", text, "en") == value, "parse_number is not the value")
    h.check(h.value("parse", text, "en") == str(value), "parse does not give the digits")


def joined(h, groups, last_units):
    """"and" in front of any groups but the first."""
    shape = h.choice("shape", SHAPES)
    phrases = h.choice("form", en.CLASSES[::2] if shape[1] else en.CLASSES[:1])
    text = ""
    value = 0
    prev = None
    for i in range(groups + (1 if last_units else 0)):
        t, v = hundreds_part(h, i, *shape, phrases)
        if i < groups:
            s = h.word("scale%d" % i, en.SCALES)
            if prev is not None:
                h.assume(en.RANK[prev] > en.RANK[s])
            prev = s
            t = t + " " + s
            v = v * en.SCALE[s]
        text = text + (h.choice("and%d" % i, [" and ", " "]) if i else "") + t
        value = value + v
    h.check(h.value("parse_number", text, "en") == value, "parse_number is not the value")
    h.check(h.value("parse", text, "en") == str(value), "parse does not give the digits")


def zero(h):
    w = h.word("w", ["zero", "Zero", "ZERO"])
    h.check(h.value("parse_number", w, "en") == 0, "zero is not 0")
    h.check(h.value("parse", w, "en") == "0", "zero is not 0")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": "English cardinals: zero; all numbers with up to two scale words (any shape of each group), up to seven scale words with groups of one shape; scale words thousand to sextillion in any descending order; hyphen or blank in tens, with or without 'and'; 'and' in front of any groups of numbers with up to three scale words.",
        "thorough": 'as quick, and three scale words with any shape of each group',
    },
    "outside": "Non-canonical wording (scale words repeated or ascending, 'a hundred', decimals, negative numbers); shapes that differ between the groups when there are more than two (three) scale words.",
}


def jobs(tier):
    out = [
        ("units", "cardinal", {"groups": 0, "last_units": True}),
        ("1 scale", "cardinal", {"groups": 1, "last_units": False}),
        ("1 scale+units", "cardinal", {"groups": 1, "last_units": True}),
        ("2 scales", "cardinal", {"groups": 2, "last_units": False}),
        ("2 scales+units", "cardinal", {"groups": 2, "last_units": True}),
    ]
    for n in range(3, 8):
        out.append(("%d scales uniform" % n, "uniform", {"groups": n, "last_units": False}))
        out.append(("%d scales+units uniform" % n, "uniform", {"groups": n, "last_units": True}))
    if tier == "thorough":
        out.append(("3 scales", "cardinal", {"groups": 3, "last_units": False}))
        out.append(("3 scales+units", "cardinal", {"groups": 3, "last_units": True}))
    for n in range(1, 4 if tier == "quick" else 6):
        for last in (False, True):
            if n > 1 or last:
                out.append(("%d scales%s, and" % (n, "+units" if last else ""), "joined", {"groups": n, "last_units": last}))
    out.append(("zero", "zero", {}))
    return out
