"""Cardinals of the languages with one word per hundred (or none)."""
from spec import grammar, lex
from spec.grammar import LANG, agree


def single(h, lang):
    """Every number word alone is its value."""
    w = h.word("w", lex.WORDS[lang])
    agree(h, w, lex.VALUE[lang][w], lang)


def below_1000(h, lang):
    g = LANG[lang]
    t, v = grammar.below_1000(h, "u", g, h.choice("shape", grammar.shapes(g)))
    agree(h, t, v, lang)


def chain(h, lang, n, last, hundreds, bare, uniform=False):
    g = LANG[lang]
    sh = grammar.shapes(g, hundreds, bare)
    if uniform:
        sh = [h.choice("shape", sh)]
    la = None
    if last:
        la = grammar.shapes(g)
        if uniform:
            la = [sh[0] or la[0]]
    t, v = grammar.descending(h, g, n, lex.SCALES[lang], sh, la)
    agree(h, t, v, lang)


def ladder(h, lang, n, last, hundreds, bare, steps=(1, 2, 3)):
    """Long numbers: the same shape in every group, the scales a descending
    selection of `n` of the scale values, each in any of its forms."""
    g = LANG[lang]
    v = lex.VALUE[lang]
    shape = h.choice("shape", grammar.shapes(g, hundreds, bare))
    left = sorted({v[s] for s in lex.SCALES[lang]}, reverse=True)
    first = h.choice("first", range(len(left) - n + 1))
    step = h.choice("step", [k for k in steps if first + (n - 1) * k < len(left)])
    parts = []
    total = 0
    for i in range(n):
        x = left[first + i * step]
        s = h.word("scale%d" % i, [w for w in lex.SCALES[lang] if v[w] == x])
        t, y = grammar.scaled(h, "g%d" % i, g, shape, s)
        parts.append(t)
        total = total + y
    if last:
        t, y = grammar.below_1000(h, "u", g, shape or (True, 0))
        parts.append(t)
        total = total + y
    agree(h, " ".join(parts), total, lang)
