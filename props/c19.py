"""The functions agree with each other, for any text."""
from spec import en, lex, phrases

ELSEWHERE = {l: [w for k in lex.LANGS if k != l for w in lex.SKIP[k] if w.isalpha() and w not in lex.SKIP[l]] for l in lex.LANGS}
POOL = {l: lex.WORDS[l] + lex.SKIP[l] + ["cows", "x", "12", "7"] + ELSEWHERE[l] for l in lex.LANGS}


def text(h, lang, n, pool, tag="w"):
    t = h.word(tag + "0", pool)
    for i in range(1, n):
        t = t + " " + h.word("%s%d" % (tag, i), pool)
    return t


def number_and_sentence(h, lang, n):
    """What parse_number reads as one number, parse replaces by its digits;
    when parse gives nothing but digits, parse_number gives that number."""
    ws = [h.word("w%d" % i, POOL[lang]) for i in range(n)]
    t = " ".join(ws)
    v = h.value("parse_number", t, lang)
    r = h.value("parse", t, lang)
    kept = ""
    while ws[-1] in lex.SKIP[lang]:
        kept = " " + ws.pop() + kept
        if not ws:
            break
    if v is None:
        h.check(not digits(r), "parse reads one number, parse_number none")
    else:
        # a conjunction behind the number is no part of it
        h.check(r == str(v) + kept, "parse_number and parse disagree")


def digits(r):
    return r.isdecimal()


def ordinal_and_number(h, lang, n):
    """parse_ordinal reads cardinals, and whatever is no number, as
    parse_number does."""
    t = text(h, lang, n, POOL[lang])
    a = h.value("parse_number", t, lang)
    b = h.value("parse_ordinal", t, lang)
    h.check(h.same(a, b), "parse_ordinal and parse_number disagree")


def fraction_and_number(h, lang, n, m):
    """A fraction is what parse_number reads on either side of the separator."""
    t = text(h, lang, n, POOL[lang], "a")
    u = text(h, lang, m, POOL[lang], "b")
    sep = h.choice("sep", ["/", " / ", " over ", " by ", " divided by "] if n + m < 3 or h.tier == "thorough" else ["/", " over "])
    a = h.value("parse_number", t, lang)
    b = h.value("parse_number", u, lang)
    f = h.value("parse_fraction", t + sep + u, lang)
    if a is None or b is None:
        h.check(f is None, "parse_fraction reads what parse_number does not")
    else:
        h.check(f == str(a) + "/" + str(b), "parse_fraction and parse_number disagree")


def no_separator(h, lang, n):
    t = text(h, lang, n, POOL[lang])
    h.check(h.value("parse_fraction", t, lang) is None, "a fraction without a separator")


def ordinal_sentence(h, lang):
    """An ordinal closes its number: parse and parse_ordinal agree."""
    a = h.word("a", en.TENS + ["hundred", "thousand", "million"])
    o = h.word("o", list(en.ORDINAL_WORDS))
    t = a + " " + o
    v = h.value("parse_ordinal", t, "en")
    r = h.value("parse", t, "en")
    if v is None:
        h.check(not digits(r), "parse reads one number, parse_ordinal none")
    else:
        h.check(r == str(v), "parse_ordinal and parse disagree")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'any one to three words out of number words, conjunctions, digits and other words; fractions of up to two words over one and one over two.',
        "thorough": 'up to four words; fractions of two words over two',
    },
    "outside": 'Ukrainian words with an apostrophe, which parse splits.',
}


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for l in lex.LANGS:
        k = {"lang": l}
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            out.append(("parse, %d words %s" % (n, l), "number_and_sentence", {"n": n, **k}))
            out.append(("ordinal, %d words %s" % (n, l), "ordinal_and_number", {"n": n, **k}))
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)) if deep else ((1, 1), (2, 1), (1, 2)):
            out.append(("fraction, %d over %d words %s" % (n, m, l), "fraction_and_number", {"n": n, "m": m, **k}))
        out.append(("no separator %s" % l, "no_separator", {"n": 2, **k}))
    out.append(("ordinals", "ordinal_sentence", {"lang": "en"}))
    return out
