"""Ukrainian cardinals."""
from props.cardinal import single, below_1000, chain, ladder
from spec import grammar, lex

APO = "\u02bc"


def spellings(words):
    """Each word with each of the apostrophes that are used, and without."""
    return list(dict.fromkeys(w.replace(APO, x) for w in words for x in (APO, "'", "\u2019", "")))


G = dict(
    grammar.LANG["uk"],
    value={x: v for w, v in lex.VALUE["uk"].items() for x in spellings([w])},
    forms=[[spellings(ws) for ws in f] for f in grammar.LANG["uk"]["forms"]],
    hundreds=spellings(lex.HUNDREDWORDS["uk"]),
    hundreds_alone=spellings(lex.HUNDREDWORDS["uk"]),
)


def apostrophes(h, n, last):
    """Numbers of several words, each with its own apostrophe."""
    sh = grammar.shapes(G)
    t, v = grammar.descending(h, G, n, lex.SCALES["uk"], sh, sh if last else None)
    if h.choice("upper", [False, True]):
        t = t.upper()
    h.check(h.value("parse_number", t, "uk") == v, "parse_number is not the value")

META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'Ukrainian: every word form; 1..999; up to three scale words with any form and shape in each group (also bare), behind up to two of them a last group, up to seven with groups of one shape; any of three apostrophes in each word of numbers with up to one scale word.',
        "thorough": 'as quick, and three scale words and a last group with any shapes',
    },
    "outside": 'Words with an ASCII apostrophe inside texts for parse; forms that are not in the frozen lexicon.',
}


def jobs(tier):
    k = {"lang": "uk", "hundreds": True, "bare": True}
    out = [
        ("every word", "single", {"lang": "uk"}),
        ("1..999", "below_1000", {"lang": "uk"}),
        ("1 scale", "chain", {"n": 1, "last": False, **k}),
        ("1 scale+units", "chain", {"n": 1, "last": True, **k}),
        ("2 scales", "chain", {"n": 2, "last": False, **k}),
        ("2 scales+units", "chain", {"n": 2, "last": True, **k}),
    ]
    for n, last in ((0, True), (1, False), (1, True)):
        out.append(("apostrophes, %d scales%s" % (n, "+units" if last else ""), "apostrophes", {"n": n, "last": last}))
    for n in range(3, 8):
        out.append(("%d scales+units, one shape" % n, "ladder", {"n": n, "last": True, "steps": (1, 2) if tier == "quick" else (1, 2, 3), **k}))
    out.append(("3 scales", "chain", {"n": 3, "last": False, **k}))
    if tier == "thorough":
        out.append(("3 scales+units", "chain", {"n": 3, "last": True, **k}))
    return out
