"""Every text gets an answer of the documented kind, for every function and
language."""
from spec import chars, lex, phrases


def fraction_like(r):
    a, sep, b = r.partition("/")
    return sep == "/" and a.isdecimal() and b.isdecimal()


def answers(h, t, lang):
    r = h.value("parse", t, lang)
    h.check(isinstance(r, str), "parse gives no text")
    r = h.value("parse_number", t, lang)
    h.check(r is None or isinstance(r, int), "parse_number gives neither a number nor None")
    if r is not None:
        h.check(r >= 0, "parse_number gives a negative number")
    r = h.value("parse_ordinal", t, lang)
    h.check(r is None or isinstance(r, int), "parse_ordinal gives neither a number nor None")
    r = h.value("parse_fraction", t, lang)
    h.check(r is None or isinstance(r, str), "parse_fraction gives neither a text nor None")


def text(h, n, domain, lang):
    lang = h.choice("lang", lang)
    t = ""
    for i in range(n):
        t = t + h.word("c%d" % i, domain)
    answers(h, t, lang)


def empty(h):
    answers(h, "", h.choice("lang", lex.LANGS + [None]))


def tail(h, lang):
    """An arbitrary character behind, before and inside words."""
    c = h.word("c", chars.STABLE)
    w = h.word("w", lex.WORDS[lang][:40] + lex.SKIP[lang])
    form = h.choice("form", ["{w}{c}", "{c}{w}", "{w} {c}", "{c} {w}", "{w}{c}{w}", "{w} {c} {w}"])
    pre, mid, post = "", "", ""
    if form == "{w}{c}":
        t = w + c
    elif form == "{c}{w}":
        t = c + w
    elif form == "{w} {c}":
        t = w + " " + c
    elif form == "{c} {w}":
        t = c + " " + w
    elif form == "{w}{c}{w}":
        t = w + c + w
    else:
        t = w + " " + c + " " + w
    answers(h, t, lang)


def sequence(h, lang, n):
    """Any words in any order."""
    v = lex.WORDS[lang] + lex.SKIP[lang] + phrases.OTHER[lang] + [".", ",", "7", "first", "th", "over", "/", ""]
    t = " ".join([h.word("w%d" % i, v) for i in range(n)])
    answers(h, t, lang)


def long_text(h, n):
    """Many words."""
    lang = h.choice("lang", lex.LANGS)
    w = h.word("w", lex.WORDS[lang] + lex.SKIP[lang] + phrases.PLAIN[lang])
    answers(h, " ".join([w] * n), lang)
    if lex.SKIP[lang]:
        c = h.word("c", lex.SKIP[lang])
        answers(h, " ".join([w, c] * (n // 2)), lang)


def longer(h, n):
    """A text longer than any limit of the interpreter."""
    lang = h.choice("lang", lex.LANGS + [None])
    w = h.word("w", lex.WORDS[lang or "en"] + phrases.PLAIN[lang or "en"])
    f = h.choice("filler", ["x ", "two ", ", ", "    "])
    k = h.choice("front", [True, False])
    answers(h, w + " " + f * n if k else f * n + w, lang)


MARKS = ["!", "?", "-", "/", "'", "_", ".", ",", "$", "(", "#", "\n", "\xad", "x"]


def runs(h, form, langs):
    """One kind of character, word or mark many times, and other marks."""
    lang = h.choice("lang", langs)
    c = h.word("c", ["a", "one", "th", "_", "сто", "/", "$", "सौ", "٣"] + MARKS)
    d = h.word("d", MARKS)
    if form == "end":
        t = c * 40 + d * 2
    elif form == "front":
        t = d * 2 + c * 40
    elif form == "pairs":
        t = (c + d) * 30 + d
    else:
        t = (c + " ") * 40 + d * 2
    answers(h, t, lang)


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'the empty text; one character of about 2,500 in every language and none; two of about 2,400 in English and Hindi; three of about 90 in English; a character beside or between number words; any two words; runs of 40 of the same character or word with any of 14 marks in English, Hindi and none; 30 words; a word before or behind 1500 others.',
        "thorough": 'two and three characters and runs in every language; any three words',
    },
    "outside": 'other characters of the same kinds; combining marks in texts of two and more characters; capital sigma; integers of more than 4300 digits, which Python refuses to convert.',
}


def jobs(tier):
    L = lex.LANGS + [None]
    out = [("empty", "empty", {})]
    out.append(("1 character of all", "text", {"n": 1, "domain": chars.ALL, "lang": L}))
    out.append(("2 characters of all", "text", {"n": 2, "domain": chars.STABLE, "lang": ["en", "hi"] if tier == "quick" else L}))
    out.append(("3 characters", "text", {"n": 3, "domain": chars.SMALL, "lang": ["en"] if tier == "quick" else L}))
    for l in lex.LANGS:
        out.append(("a character beside words %s" % l, "tail", {"lang": l}))
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(("%d words %s" % (n, l), "sequence", {"lang": l, "n": n}))
    for f in ("end", "front", "pairs", "words"):
        out.append(("runs, %s" % f, "runs", {"form": f, "langs": ["en", "hi", None] if tier == "quick" else L}))
    out.append(("30 words", "long_text", {"n": 30}))
    out.append(("1500 words", "longer", {"n": 1500}))
    return out
