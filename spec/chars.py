"""The characters of the arbitrary-text harnesses."""
import unicodedata

RANGES = [
    (0x0000, 0x0250),
    (0x02B0, 0x0300),
    (0x0300, 0x0330),
    (0x0370, 0x0530),
    (0x0900, 0x0980),
    (0x1E00, 0x1F00),
    (0x2000, 0x20D0),
    (0x2100, 0x2190),
    (0x2460, 0x2500),
    (0x3000, 0x3030),
    (0x3220, 0x3240),
    (0x4E00, 0x4E10),
    (0xFE00, 0xFE10),
    (0xFF00, 0xFF40),
    (0x1D7CE, 0x1D800),
    (0x1F100, 0x1F110),
    (0x1F600, 0x1F604),
    (0x1D41A, 0x1D41E),
    (0x10400, 0x10404),
    (0xD7FF, 0xD802),
    (0xDBFF, 0xDC02),
    (0xDFFF, 0xE002),
    (0xFFFD, 0x10002),
    (0xE0020, 0xE0022),
    (0x10FFFE, 0x110000),
]
# Σ: its lower case depends on what is around it
SKIPPED = {0x3A3}
# every blank, and one of each run of numeric characters, wherever it is
EXTRA = []
_prev = False
for _c in range(0x110000):
    if 0xD800 <= _c < 0xE000:
        continue
    _ch = chr(_c)
    _now = _ch.isnumeric()
    if _ch.isspace() or (_now and not _prev):
        EXTRA.append(_ch)
    _prev = _now

ALL = []
for _lo, _hi in RANGES:
    for _c in range(_lo, _hi):
        if _c not in SKIPPED and chr(_c) not in ALL:
            ALL.append(chr(_c))
ALL = list(dict.fromkeys(ALL + EXTRA))

# without marks that reorder under normalisation
STABLE = [c for c in ALL if not unicodedata.combining(c)]

# a small alphabet that covers the classes the code tells apart
def _small():
    out = list("aehinortyAOxz019 .,-'/’_½²五٣७१ⅷ㉠éǅßİışΰœ")
    out += ["\xad", "\n", "\t", "\x00", "\u200b", "\u2028", "\u0301", "\u093c", "\u094d", "ё", "ґ", "Я", "ʼ", "द", "ो", "ー", "𝟗", "😀", "\ud800", "\udc00", "y", "Y"]
    return sorted(set(out))


SMALL = _small()
