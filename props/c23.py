"""Words that are no numbers part a text."""
from props.c10 import vocabulary
from spec import lex, phrases

BETWEEN = {l: [w for w in phrases.OTHER[l] if w.lower() not in lex.SKIP[l] and w != "-"] + ["!", ":", "2", "1000"] for l in lex.LANGS}
SIDE = {l: vocabulary(l) + ["-", ".", "!"] for l in lex.LANGS}


def side(h, tag, lang, n):
    return " ".join([h.word(tag + str(i), SIDE[lang]) for i in range(n)])


def parts(h, lang, left, right):
    """Any words on both sides: each side is read on its own."""
    a = side(h, "a", lang, left)
    b = side(h, "b", lang, right)
    x = " " + h.word("between", BETWEEN[lang]) + " "
    whole = h.value("parse", a + x + b, lang)
    h.check(whole == h.value("parse", a, lang) + x + h.value("parse", b, lang), "the two sides influence each other")


def trail(h, lang, n):
    """Conjunctions behind a number, and in front of the next."""
    a = h.word("a", lex.WORDS[lang])
    for i in range(n):
        a = a + " " + h.word("s%d" % i, lex.SKIP[lang])
    x = " " + h.word("between", BETWEEN[lang]) + " "
    b = h.word("t", lex.SKIP[lang] + ["the"]) + " " + h.word("b", lex.WORDS[lang])
    whole = h.value("parse", a + x + b, lang)
    h.check(whole == h.value("parse", a, lang) + x + h.value("parse", b, lang), "conjunctions of the other side")


def three(h, lang):
    """Three words, all apart."""
    x = " " + h.word("x", BETWEEN[lang]) + " "
    y = " " + h.word("y", BETWEEN[lang]) + " "
    ws = [h.word("w%d" % i, lex.WORDS[lang]) for i in range(3)]
    v = [str(lex.VALUE[lang][w]) for w in ws]
    h.check(h.value("parse", ws[0] + x + ws[1] + y + ws[2], lang) == v[0] + x + v[1] + y + v[2], "numbers apart from each other")


def numbers(h, lang, kind, other):
    """Numbers of several words on both sides."""
    t, v = phrases.number(h, "n", lang, kind)
    u, w = phrases.number(h, "m", lang, other)
    x = " " + h.word("between", BETWEEN[lang]) + " "
    h.check(h.value("parse", t + x + u, lang) == str(v) + x + str(w), "a word between two numbers")


def far(h, lang, n):
    """A long way apart."""
    a = side(h, "a", lang, 1)
    b = side(h, "b", lang, 1)
    x = h.word("between", BETWEEN[lang])
    w = h.word("w", lex.WORDS[lang])
    v = str(lex.VALUE[lang][w])
    mid = (" " + x + " " + w) * n + " " + x + " "
    res = (" " + x + " " + v) * n + " " + x + " "
    h.check(h.value("parse", a + mid + b, lang) == h.value("parse", a, lang) + res + h.value("parse", b, lang), "a number repeated between other words")


def very_far(h, lang, n):
    """The same, n times, with one number."""
    u = lex.NONZERO_UNITS[lang][2]
    w = h.word("w", lex.NONZERO_UNITS[lang])
    x = h.choice("between", [" xx ", " ! "])
    v = str(lex.VALUE[lang][w])
    h.check(h.value("parse", (u + x) * n + w + x + w, lang) == (str(lex.VALUE[lang][u]) + x) * n + v + x + v, "many numbers between other words")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'two sides of one or two words each (two and two in Ukrainian), out of all number words, ordinals, conjunctions, digits, marks and other words; any of about 25 words between them; up to three conjunctions behind the number on the left; numbers of every form on one side and two forms on the other; a number repeated forty times, one 10,000 times.',
        "thorough": 'up to three words on one side; up to six conjunctions; all pairs of forms; a number repeated 200 times, one 20,000 times',
    },
    "outside": "Words joined by something else than one blank.",
}


def jobs(tier):
    out = []
    for l in lex.LANGS:
        sizes = [(1, 1), (2, 1), (1, 2)]
        if tier == "thorough":
            sizes += [(2, 2), (3, 1), (1, 3)]
        elif l == "uk":
            sizes += [(2, 2)]
        for a, b in sizes:
            out.append(("%d and %d words %s" % (a, b, l), "parts", {"lang": l, "left": a, "right": b}))
        for n in range(1, 4 if tier == "quick" else 7):
            if lex.SKIP[l]:
                out.append(("%d conjunctions %s" % (n, l), "trail", {"lang": l, "n": n}))
        out.append(("three words %s" % l, "three", {"lang": l}))
        ks = phrases.kinds(l)
        for k in ks:
            for q in ks if tier == "thorough" else [ks[0], ks[-1]]:
                out.append(("%s, %s %s" % (k, q, l), "numbers", {"lang": l, "kind": k, "other": q}))
        out.append(("many times %s" % l, "very_far", {"lang": l, "n": 10000 if tier == "quick" else 20000}))
        out.append(("repeated %s" % l, "far", {"lang": l, "n": 40 if tier == "quick" else 200}))
    return out
