"""The table generator, run on files in memory."""
M = "number_parser_scripts.write_complete_language_data"
SRC = "/symx/number_parser_data/raw_cldr_translation_data"
SUP = "/symx/number_parser_data/supplementary_translation_data"
OUT = "/symx/number_parser/data"
GROUPS = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]


def rules(**sets):
    return {"rbnf": {"identity": {"language": "x"}, "rbnf": {"SpelloutRules": {k.replace("_", "-"): v for k, v in sets.items()}}}}


def extra(skip=(), long=True, **groups):
    d = {g: dict(groups.get(g, {})) for g in GROUPS}
    d["SKIP_TOKENS"] = list(skip)
    d["USE_LONG_SCALE"] = long
    return d


def make(h, src, sup, listing=None):
    fs = h.files()
    fs.real = False
    fs.lists[SRC] = listing or list(src)
    fs.lists[SUP] = list(sup)
    fs.lists[OUT] = []
    for n, o in src.items():
        fs.files[SRC + "/" + n] = o
    for n, o in sup.items():
        fs.files[SUP + "/" + n] = o
    return generate(h, fs)


def generate(h, fs):
    o = h.call_in(M, "write_complete_data")
    h.check(o.exc is None, "the generator raised an exception")
    out = {}
    for p, w in fs.out.items():
        h.check(p.startswith(OUT + "/") and p.endswith(".py"), "a file written elsewhere")
        h.check(w.closed, "a file left open")
        out[p[len(OUT) + 1 : -3]] = w.info()
    return out
