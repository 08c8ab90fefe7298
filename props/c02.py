"""Spanish cardinals (long scale: groups of six digits)."""
from spec import grammar, lex
from spec.grammar import agree
from props.cardinal import single, below_1000

ES = grammar.LANG["es"]
V = ES["value"]
BELOW = grammar.shapes(ES)
# millón and up, one power per six digits
SCALES = [
    w for w in lex.SCALES["es"] if V[w] >= 10**6 and w not in ("millardo", "gúgol")
]
POWERS = sorted({V[w] for w in SCALES}, reverse=True)
SINGULAR = {V[w]: w for w in SCALES if w.endswith("ón")}
PLURAL = {V[w]: w for w in SCALES if not w.endswith("ón")}


def group6_shapes(below):
    """(thousands: None, "mil" alone, or a shape; units: None or a shape)"""
    out = []
    for a in [None, "mil"] + below:
        for b in [None] + below:
            if a is not None or b is not None:
                out.append((a, b))
    return out


def group6(h, tag, shape):
    a, b = shape
    text = ""
    value = 0
    if a == "mil":
        text = "mil"
        value = 1000
    elif a is not None:
        text, value = grammar.below_1000(h, tag + "a", ES, a)
        text = text + " mil"
        value = value * 1000
    if b is not None:
        t, v = grammar.below_1000(h, tag + "b", ES, b)
        text = text + (" " if a is not None else "") + t
        value = value + v
    return text, value


def below_million(h):
    t, v = group6(h, "", h.choice("shape", group6_shapes(BELOW)))
    agree(h, t, v, "es")


def scales(h, powers, below, last, uniform):
    """Groups of six digits with the scales of the given powers (None: any one
    scale), then a last group of six digits."""
    sh = group6_shapes(below)
    one = h.choice("shape", sh) if uniform else None
    parts = []
    total = 0
    for i, p in enumerate(powers):
        shape = one or h.choice("shape%d" % i, sh)
        t, v = group6(h, "g%d" % i, shape)
        s = h.word("scale%d" % i, [w for w in SCALES if p is None or V[w] == p])
        parts.append(t + " " + s)
        total = total + v * V[s]
    if last:
        t, v = group6(h, "u", one or h.choice("last", sh))
        parts.append(t)
        total = total + v
    agree(h, " ".join(parts), total, "es")


def ladder(h, n, last, below, steps):
    first = h.choice("first", range(len(POWERS) - n + 1))
    step = h.choice("step", [k for k in steps if first + (n - 1) * k < len(POWERS)])
    scales(h, [POWERS[first + i * step] for i in range(n)], below, last, True)


def exactly_one(h):
    """"un millón", "un billón", ..., and what follows."""
    p = h.choice("power", POWERS)
    text = "un " + SINGULAR[p] if p in SINGULAR else "un"
    if p not in SINGULAR:
        return
    t, v = group6(h, "u", h.choice("last", group6_shapes(BELOW[:4])))
    agree(h, text + " " + t, p + v, "es")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'Spanish: every number word; 1..999999 in all shapes; any one scale word with any group of six digits, with units; up to seven scale words with equal group shapes, scales one or two steps apart; two with different group shapes.',
        "thorough": 'as quick, with all shapes for two scale words, different ones for three, and all steps',
    },
    "outside": "'millardo' and 'gúgol' inside longer numbers; feminine hundreds mixed with masculine units is allowed, regional number names are not covered.",
}


def jobs(tier):
    few = [(False, 0), (True, 3)]
    out = [
        ("every word", "single", {"lang": "es"}),
        ("1..999", "below_1000", {"lang": "es"}),
        ("1..999999", "below_million", {}),
        ("1 scale", "scales", {"powers": [None], "below": BELOW, "last": False, "uniform": True}),
        ("1 scale+units", "scales", {"powers": [None], "below": few, "last": True, "uniform": False}),
        ("un millón", "exactly_one", {}),
    ]
    for n in range(2, 8):
        out.append(("%d scales+units" % n, "ladder", {"n": n, "last": True, "below": few, "steps": (1, 2) if tier == "quick" else (1, 2, 3)}))
    out.append(("2 scales, any shapes", "scales", {"powers": [10**18, 10**6], "below": BELOW[:4] + few, "last": False, "uniform": False}))
    out.append(("2 scales+units, any shapes", "scales", {"powers": [10**12, 10**6], "below": few, "last": True, "uniform": False}))
    if tier == "thorough":
        out.append(("2 scales, all shapes", "scales", {"powers": [10**24, 10**6], "below": BELOW, "last": False, "uniform": False}))
        out.append(("3 scales+units, any shapes", "scales", {"powers": [10**18, 10**12, 10**6], "below": few, "last": True, "uniform": False}))
    return out
