"""Hindi cardinals."""
from spec import grammar
from spec.grammar import agree
from props.cardinal import single, below_1000, chain, ladder

G = grammar.LANG["hi"]


def multiplied(h, last):
    """"पाँच हज़ार दो सौ करोड़": a number below ten million in front of a
    higher scale."""
    v = G["value"]
    a = h.word("inner", ["हज़ार", "लाख"])
    b = h.word("outer", ["करोड़", "अरब", "खरब"])
    few = grammar.shapes(G, False)
    t, x = grammar.scaled(h, "a", G, h.choice("a", few), a)
    rest = h.choice("b", [None] + grammar.shapes(G))
    if rest:
        t2, x2 = grammar.below_1000(h, "b", G, rest)
        t = t + " " + t2
        x = x + x2
    t = t + " " + b
    x = x * v[b]
    if last:
        t2, x2 = grammar.below_1000(h, "u", G, h.choice("u", grammar.shapes(G)))
        t = t + " " + t2
        x = x + x2
    agree(h, t, x, "hi")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'Hindi: every number word; 1..999 ; up to five scale words in descending order with groups below a hundred, up to three with groups below a thousand; a number with a scale word in front of a higher scale word.',
        "thorough": 'as quick, and up to five scale words with groups below a thousand',
    },
    "outside": 'Spellings that are not in the frozen lexicon.',
}


def jobs(tier):
    k = {"lang": "hi", "hundreds": False, "bare": False}
    out = [
        ("every word", "single", {"lang": "hi"}),
        ("1..999", "below_1000", {"lang": "hi"}),
    ]
    for n in range(1, 6):
        out.append(("%d scales" % n, "chain", {"n": n, "last": False, **k}))
        out.append(("%d scales+units" % n, "chain", {"n": n, "last": True, **k}))
    k["hundreds"] = True
    out.append(("1 scale+units, groups below 1000", "chain", {"n": 1, "last": True, **k}))
    out.append(("2 scales+units, groups below 1000", "chain", {"n": 2, "last": True, **k}))
    out.append(("3 scales+units, groups below 1000", "chain", {"n": 3, "last": True, **k}))
    if tier == "thorough":
        for n in (4, 5):
            out.append(("%d scales+units, groups below 1000" % n, "chain", {"n": n, "last": True, **k}))
    out.append(("number x scale", "multiplied", {"last": False}))
    out.append(("number x scale+units", "multiplied", {"last": True}))
    return out
