"""Where one number ends and the next begins."""
from spec import en, grammar, lex

# kinds of words: units, numbers that stand on their own (teens), tens
def kinds(lang):
    if lang == "en":
        return {"unit": en.ONES, "direct": en.TEENS, "tens": en.TENS, "zero": ["zero"]}
    d = {"unit": lex.NONZERO_UNITS[lang], "direct": lex.DIRECTS[lang], "tens": lex.TENWORDS[lang], "zero": lex.ZEROS[lang]}
    return {k: v for k, v in d.items() if v}


# a word of the first kind cannot be continued by one of the second
SPLIT = [
    ("unit", "unit"),
    ("unit", "direct"),
    ("unit", "tens"),
    ("direct", "unit"),
    ("direct", "direct"),
    ("direct", "tens"),
    ("tens", "direct"),
    ("tens", "tens"),
]
ALWAYS = ("zero", "unit", "direct", "tens")


def splits(a, b):
    return a == "zero" or b == "zero" or (a, b) in SPLIT


def separate(h, lang, n, only=None):
    """n words of which no two neighbours compose: n numbers."""
    ks = kinds(lang)
    v = lex.VALUE[lang]
    words = []
    prev = None
    for i in range(n):
        k = h.choice("kind%d" % i, [k for k in (only or ks) if prev is None or splits(prev, k)])
        words.append(h.word("w%d" % i, ks[k]))
        prev = k
    text = " ".join(words)
    want = " ".join([str(v[w]) for w in words])
    h.check(h.value("parse", text, lang) == want, "not one number per word")
    if n > 1:
        h.check(h.value("parse_number", text, lang) is None, "several numbers read as one")


def zero_beside(h, lang):
    """Zero next to a number of any form stays a number of its own."""
    z = h.word("z", lex.ZEROS[lang])
    w = h.word("w", lex.WORDS[lang])
    v = lex.VALUE[lang]
    h.check(h.value("parse", z + " " + w, lang) == "0 " + str(v[w]), "zero in front")
    h.check(h.value("parse", w + " " + z, lang) == str(v[w]) + " 0", "zero behind")
    h.check(h.value("parse_number", z + " " + w, lang) is None, "zero in front")
    h.check(h.value("parse_number", w + " " + z, lang) is None, "zero behind")


def compounds(h, lang):
    """Two-word numbers side by side."""
    v = lex.VALUE[lang]
    ks = kinds(lang)
    if lang == "en":
        tens, ones, glue = en.TENS, en.ONES, h.choice("glue", ["-", " "])
    else:
        tens, ones, glue = ks["tens"], ks["unit"], grammar.LANG[lang]["joint"]
    a = h.word("a", tens)
    b = h.word("b", ones)
    c = h.word("c", tens)
    d = h.word("d", ones)
    x = a + glue + b
    y = c + glue + d
    vx = v[a] + v[b]
    vy = v[c] + v[d]
    h.check(h.value("parse", x + " " + y, lang) == str(vx) + " " + str(vy), "two compounds")
    h.check(h.value("parse", b + " " + y, lang) == str(v[b]) + " " + str(vy), "unit, compound")
    h.check(h.value("parse", x + " " + d, lang) == str(vx) + " " + str(v[d]), "compound, unit")
    h.check(h.value("parse_number", x + " " + y, lang) is None, "two numbers read as one")


def scale_again(h, lang):
    """A number with a scale word, then one with the same or a higher scale:
    the second one cannot be part of the first."""
    v = lex.VALUE[lang]
    ks = kinds(lang)
    s = h.word("s", lex.SCALES[lang])
    t = h.word("t", lex.SCALES[lang])
    a = h.word("a", ks["direct"])
    b = h.word("b", ks["direct"])
    h.assume(v[s] == v[t])
    # "a s b t": b t is a number as large in scale; greedy reading puts b in
    # the first number, so only the count of numbers and their sum of words is
    # fixed: the result is never a single number
    h.check(h.value("parse_number", a + " " + s + " " + b + " " + t, lang) is None, "one number with a scale twice")


def runs(words):
    """All ways to cut the words into consecutive runs."""
    if not words:
        return [[]]
    out = []
    for i in range(1, len(words) + 1):
        for rest in runs(words[i:]):
            out.append([words[:i]] + rest)
    return out


def sample(lang):
    """One word of each value below 21, of each tens, hundreds and scale."""
    out = {}
    for w in lex.WORDS[lang]:
        v = lex.VALUE[lang][w]
        if v in (0, 1, 2, 9, 10, 11, 19, 20, 30, 90) or v >= 100:
            out.setdefault(v, w)
    return list(out.values())


def munch(h, lang, n, words=None):
    """Any number words in a row: each number takes as many words as together
    still are one number; no word is lost, used twice or moved."""
    ws = [h.word("w%d" % i, words or lex.WORDS[lang]) for i in range(n)]
    got = h.value("parse", " ".join(ws), lang)
    out = []
    i = 0
    while i < n:
        j = i + 1
        best = h.value("parse_number", ws[i], lang)
        h.check(best is not None, "a number word is no number")
        while j < n:
            x = h.value("parse_number", " ".join(ws[i : j + 1]), lang)
            if x is None:
                break
            best = x
            j += 1
        out.append(str(best))
        i = j
    h.check(got == " ".join(out), "words lost, moved or split differently")


def mixed_words(lang, full):
    return (lex.WORDS[lang] if full else sample(lang)) + lex.SKIP[lang] + [OTHER_WORD[lang]]


OTHER_WORD = {"en": "cows", "es": "vacas", "hi": "गाय", "ru": "коров", "uk": "корів"}


def mixed(h, lang, n, words):
    """Number words, conjunctions and another word in a row: the longest
    numbers from the left; a conjunction is used up between two words of one
    number only, everything else stays in place."""
    ws = [h.word("w%d" % i, words) for i in range(n)]
    got = h.value("parse", " ".join(ws), lang)
    known = lex.VALUE[lang]
    isnum = [w in known for w in ws]
    out = []
    i = 0
    while i < n:
        if not isnum[i]:
            out.append(ws[i])
            i += 1
            continue
        best = h.value("parse_number", ws[i], lang)
        h.check(best is not None, "a number word is no number")
        end = j = i + 1
        while j < n:
            if isnum[j]:
                x = h.value("parse_number", " ".join(ws[i : j + 1]), lang)
                if x is None:
                    break
                best, end = x, j + 1
            elif ws[j] == OTHER_WORD[lang]:
                break
            j += 1
        out.append(str(best))
        i = end
    h.check(got == " ".join(out), "words lost, moved or split differently")


def row(h, lang, n):
    """Many numbers in a row."""
    v = lex.VALUE[lang]
    a = h.word("a", lex.NONZERO_UNITS[lang])
    b = h.word("b", lex.NONZERO_UNITS[lang])
    k = h.choice("at", [0, n // 2, n])
    ws = [b] * k + [a] + [b] * (n - k)
    h.check(h.value("parse", " ".join(ws), lang) == " ".join([str(v[w]) for w in ws]), "one of many numbers")
    h.check(h.value("parse_number", " ".join(ws), lang) is None, "many numbers read as one")


def long_row(h, lang, n):
    """A very long row with one symbolic end."""
    v = lex.VALUE[lang]
    u = lex.NONZERO_UNITS[lang][4]
    w = h.word("w", lex.NONZERO_UNITS[lang])
    t = (u + " ") * n + w
    h.check(h.value("parse", t, lang) == (str(v[u]) + " ") * n + str(v[w]), "the last of many numbers")
    h.check(h.value("parse_number", t, lang) is None, "many numbers read as one")


def conjunctions(h, lang):
    """A conjunction between two numbers that do not compose is kept."""
    ks = kinds(lang)
    v = lex.VALUE[lang]
    k = h.choice("first", list(ks))
    l = h.choice("second", [x for x in ks if splits(k, x)])
    a = h.word("a", ks[k])
    b = h.word("b", ks[l])
    c = h.word("c", lex.SKIP[lang])
    r = h.value("parse", a + " " + c + " " + b, lang)
    h.check(r == str(v[a]) + " " + c + " " + str(v[b]), "conjunction")
    h.check(h.value("parse_number", a + " " + c + " " + b, lang) is None, "two numbers read as one")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'every row of two words that do not compose, three of them, rows of eight units; every row of any two or three number words of a language, of three words out of all number words, conjunctions and another word, of four out of one word per kind and value class; conjunctions between two words; rows of 61 and 10,001 units.',
        "thorough": 'as quick, with four words out of all and five out of one per kind and value class',
    },
    "outside": 'longer rows of arbitrary words.',
}


def jobs(tier):
    out = []
    for l in lex.LANGS:
        for n in (2, 3):
            out.append(("%d words %s" % (n, l), "separate", {"lang": l, "n": n}))
        out.append(("8 digits %s" % l, "separate", {"lang": l, "n": 8, "only": ["unit"]}))
        out.append(("zero %s" % l, "zero_beside", {"lang": l}))
        if lex.TENWORDS[l]:
            out.append(("compounds %s" % l, "compounds", {"lang": l}))
        out.append(("scale twice %s" % l, "scale_again", {"lang": l}))
        if lex.SKIP[l]:
            out.append(("conjunctions %s" % l, "conjunctions", {"lang": l}))
        out.append(("any 2 words %s" % l, "munch", {"lang": l, "n": 2}))
        out.append(("any 3 words %s" % l, "munch", {"lang": l, "n": 3}))
        out.append(("any 3 words and others %s" % l, "mixed", {"lang": l, "n": 3, "words": mixed_words(l, True)}))
        out.append(("any 4 words and others %s" % l, "mixed", {"lang": l, "n": 4, "words": mixed_words(l, tier == "thorough")}))
        out.append(("60 numbers %s" % l, "row", {"lang": l, "n": 60}))
        out.append(("10000 numbers %s" % l, "long_row", {"lang": l, "n": 10000}))
        if tier == "thorough":
            out.append(("any 5 words and others %s" % l, "mixed", {"lang": l, "n": 5, "words": mixed_words(l, False)}))
            out.append(("any 4 words %s" % l, "munch", {"lang": l, "n": 4, "words": sample(l)}))
    return out
