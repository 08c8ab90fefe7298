"""English number names (frozen, independent of the repository's tables)."""

ONES = ["one", "two", "three", "four", "five", "six", "seven", "eight", "nine"]
TEENS = [
    "ten",
    "eleven",
    "twelve",
    "thirteen",
    "fourteen",
    "fifteen",
    "sixteen",
    "seventeen",
    "eighteen",
    "nineteen",
]
TENS = ["twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety"]
SCALES = [
    "thousand",
    "million",
    "billion",
    "trillion",
    "quadrillion",
    "quintillion",
    "sextillion",
]

ONE = {w: i + 1 for i, w in enumerate(ONES)}
TEEN = {w: i + 10 for i, w in enumerate(TEENS)}
TEN = {w: 10 * i + 20 for i, w in enumerate(TENS)}
SCALE = {w: 1000 ** (i + 1) for i, w in enumerate(SCALES)}
RANK = {w: i + 1 for i, w in enumerate(SCALES)}

# 1..99, hyphenated and not
SUB = {}
SUB.update(ONE)
SUB.update(TEEN)
SUB.update(TEN)
for _t, _tv in TEN.items():
    for _o, _ov in ONE.items():
        SUB[_t + "-" + _o] = _tv + _ov
        SUB[_t + " " + _o] = _tv + _ov
SUB_PHRASES = list(SUB)

# the same by form
CLASSES = [
    ONES,
    TEENS,
    TENS,
    [p for p in SUB_PHRASES if "-" in p],
    [p for p in SUB_PHRASES if " " in p],
]

ORDINAL = {
    "one": "first",
    "two": "second",
    "three": "third",
    "five": "fifth",
    "eight": "eighth",
    "nine": "ninth",
    "twelve": "twelfth",
}
for _w in ONES + TEENS + SCALES + ["hundred"]:
    ORDINAL.setdefault(_w, _w + "th")
for _w in TENS:
    ORDINAL[_w] = _w[:-1] + "ieth"


def ordinal_phrase(p):
    """The ordinal of a phrase below 100: its last word changes."""
    i = max(p.rfind("-"), p.rfind(" ")) + 1
    return p[:i] + ORDINAL[p[i:]]


SUB_ORDINAL = {p: ordinal_phrase(p) for p in SUB_PHRASES}
SCALE_ORDINAL = {s: ORDINAL[s] for s in SCALES}
ORDINAL_WORDS = {ORDINAL[w]: v for d in (ONE, TEEN, TEN, SCALE) for w, v in d.items()}
ORDINAL_WORDS["hundredth"] = 100
