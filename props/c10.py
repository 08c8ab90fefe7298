"""Sentence marks: "." and "," end a number and split the text."""
from spec import en, lex, phrases

MARKS = [".", ","]
# the same several times, or both
RUNS = ["...", "..", ". .", ", ,", ".,", ",.", ",,,", ". . .", "....", ",  ,", ".\n."]
GAPS = ["", " ", "\n", "  "]


def vocabulary(lang):
    out = list(lex.WORDS[lang]) + phrases.PLAIN[lang] + ["7", "2020"]
    if lang == "en":
        out += list(en.ORDINAL_WORDS) + ["AND", "and"]
    if lang == "es":
        out += ["y"]
    return out


VOCABULARY = {l: vocabulary(l) for l in lex.LANGS}


def parts(h, lang, left, right):
    """Words of any kind on both sides: each side is read on its own."""
    v = VOCABULARY[lang]
    a = " ".join([h.word("a%d" % i, v) for i in range(left)])
    b = " ".join([h.word("b%d" % i, v) for i in range(right)])
    mark = h.word("mark", MARKS)
    gap = h.choice("gap", GAPS if left + right == 2 else GAPS[:2])
    if lang == "hi":
        # words are separated by blanks only
        mark = " " + mark + " "
        gap = ""
    whole = h.value("parse", a + mark + gap + b, lang)
    x = h.value("parse", a, lang)
    y = h.value("parse", b, lang)
    h.check(whole == x + mark + gap + y, "the two sides influence each other")


def numbers(h, lang, kind, other):
    """A number, a mark, a number: two numbers, and the mark where it was."""
    mark = h.word("mark", MARKS)
    gap = h.choice("gap", GAPS)
    if lang == "hi":
        mark = " " + mark + " "
        gap = ""
    t, v = phrases.number(h, "n", lang, kind)
    u, w = phrases.number(h, "m", lang, other)
    text = t + mark + gap + u
    h.check(h.value("parse", text, lang) == str(v) + mark + gap + str(w), "number, mark, number")
    h.check(h.value("parse_number", text, lang) is None, "two numbers read as one")
    h.check(h.value("parse", t + mark, lang) == str(v) + mark.rstrip(), "number, mark")


def marks(h, lang):
    """Several marks in a row stay as they are."""
    v = VOCABULARY[lang]
    a = h.word("a", v)
    b = h.word("b", v)
    mark = h.word("mark", RUNS)
    gap = h.choice("gap", GAPS)
    if lang == "hi":
        mark = h.word("marks", [" . . ", " , , ", " . , ", " . . . "])
        gap = ""
    whole = h.value("parse", a + mark + gap + b, lang)
    h.check(whole == h.value("parse", a, lang) + mark + gap + h.value("parse", b, lang), "marks in a row changed")
    h.check(h.value("parse", a + mark, lang) == h.value("parse", a, lang) + mark.rstrip(), "marks at the end changed")
    h.check(h.value("parse", mark + a, lang) == mark.lstrip() + h.value("parse", a, lang), "marks at the beginning changed")


def several(h, lang, n):
    """A list of numbers."""
    v = lex.VALUE[lang]
    text = ""
    want = ""
    for i in range(n):
        w = h.word("w%d" % i, lex.WORDS[lang])
        m = h.word("m%d" % i, [", ", ". "] if lang != "hi" else [" , ", " . "])
        text = text + w + m
        want = want + str(v[w]) + m
    h.check(h.value("parse", text, lang) == want.rstrip(), "list of numbers")


def long_list(h, lang, n):
    """Very many sentences."""
    v = lex.VALUE[lang]
    u = lex.NONZERO_UNITS[lang][4]
    w = h.word("w", lex.NONZERO_UNITS[lang])
    m = h.choice("m", [", ", ". "] if lang != "hi" else [" , ", " . "])
    h.check(h.value("parse", (u + m) * n + w, lang) == (str(v[u]) + m) * n + str(v[w]), "the last of many numbers")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'one or two words before and one behind the mark, out of all number words and some others, four kinds of gaps; numbers of any form on the left, two forms on the right; eleven rows of marks between, before and behind two words; lists of four numbers, long lists of one number.',
        "thorough": 'up to three words before, two behind; all pairs of forms',
    },
    "outside": "Hindi marks glued to words (the library splits Hindi only at blanks); other marks than '.' and ','.",
}


def jobs(tier):
    out = []
    for l in lex.LANGS:
        sizes = [(1, 1), (2, 1)] if tier == "quick" else [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]
        for a, b in sizes:
            out.append(("%d mark %d %s" % (a, b, l), "parts", {"lang": l, "left": a, "right": b}))
        ks = phrases.kinds(l)
        for k in ks:
            for q in ks if tier == "thorough" else [ks[0], ks[-1]]:
                out.append(("%s, %s %s" % (k, q, l), "numbers", {"lang": l, "kind": k, "other": q}))
        out.append(("list of 10000 %s" % l, "long_list", {"lang": l, "n": 10000}))
        out.append(("several marks %s" % l, "marks", {"lang": l}))
        out.append(("list of 4 %s" % l, "several", {"lang": l, "n": 4}))
    return out
