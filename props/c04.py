"""Russian cardinals."""
from props.cardinal import single, below_1000, chain, ladder

META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'Russian: every word form; 1..999; up to three scale words with any form and shape in each group (also bare), behind up to two of them a last group, up to seven with groups of one shape.',
        "thorough": 'as quick, and three scale words and a last group with any shapes',
    },
    "outside": 'Agreement in case or gender is not required of the text; forms that are not in the frozen lexicon.',
}


def jobs(tier):
    k = {"lang": "ru", "hundreds": True, "bare": True}
    out = [
        ("every word", "single", {"lang": "ru"}),
        ("1..999", "below_1000", {"lang": "ru"}),
        ("1 scale", "chain", {"n": 1, "last": False, **k}),
        ("1 scale+units", "chain", {"n": 1, "last": True, **k}),
        ("2 scales", "chain", {"n": 2, "last": False, **k}),
        ("2 scales+units", "chain", {"n": 2, "last": True, **k}),
    ]
    for n in range(3, 8):
        out.append(("%d scales+units, one shape" % n, "ladder", {"n": n, "last": True, "steps": (1, 2) if tier == "quick" else (1, 2, 3), **k}))
    out.append(("3 scales", "chain", {"n": 3, "last": False, **k}))
    if tier == "thorough":
        out.append(("3 scales+units", "chain", {"n": 3, "last": True, **k}))
    return out
