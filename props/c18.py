"""parse is done after one pass: parsing its result changes nothing."""
from spec import en, lex, phrases

POOL = {l: lex.WORDS[l] + phrases.OTHER[l] + lex.SKIP[l] + [",", ".", "12", "0"] for l in lex.LANGS}
POOL["en"] = POOL["en"] + list(en.ORDINAL_WORDS)
GAPS = [" ", "  ", "\n", ", ", ". ", "-", " - ", "/", "!"]


def again(h, lang, t):
    r = h.value("parse", t, lang)
    s = h.value("parse", r, lang)
    h.check(h.same(r, s), "parsing the result again changes it")


def words(h, lang, n, pool):
    """Any words in a row."""
    p = {"all": POOL[lang], "numbers": lex.WORDS[lang] + lex.SKIP[lang]}[pool]
    t = h.word("w0", p)
    for i in range(1, n):
        t = t + " " + h.word("w%d" % i, p)
    again(h, lang, t)


def gaps(h, lang, n):
    """Any words, anything between them."""
    t = ""
    for i in range(n):
        if i:
            t = t + h.choice("gap%d" % i, GAPS)
        t = t + h.word("w%d" % i, lex.WORDS[lang] + phrases.PLAIN[lang])
    again(h, lang, h.choice("left", ["", "("]) + t + h.choice("right", ["", ")", "."]))


RUNS = ["\n\n\n\n", "     ", "\t\t\t", " \n \n ", "\r\n\r\n\r\n", " - - - ", "----", "....", ",,,,", ", , , ", "!!!", "((((", "\xa0\xa0\xa0"]


def runs(h, lang):
    """Long rows of the same character."""
    a = h.word("a", lex.WORDS[lang] + phrases.PLAIN[lang])
    b = h.word("b", POOL[lang])
    again(h, lang, a + h.choice("gap", RUNS) + b)


BLANKS = ["", " ", "  ", "\n", "\t ", " \n ", "\xa0", "\u3000 "]


def outer(h, lang):
    """Any blanks before and behind, and between a mark and a word."""
    a = h.word("left", BLANKS)
    b = h.word("right", BLANKS)
    m = h.choice("mark", ["", ".", "-", "!"])
    w = h.word("w", POOL[lang])
    again(h, lang, a + m + a + w + b)
    again(h, lang, a + w + b + m + b)


def phrase(h, lang, kind):
    """Numbers of every form, words and conjunctions around them."""
    t, v = phrases.number(h, "n", lang, kind)
    a = h.word("a", phrases.PLAIN[lang])
    c = h.word("c", lex.SKIP[lang] + [",", ".", "x"])
    again(h, lang, a + " " + t + " " + c + " " + a)
    again(h, lang, t + " " + c + " " + t)


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'any two words of all kinds, any three number words and conjunctions, two words with nine kinds of gaps, long rows of blanks and marks, eight kinds of blanks around a word and a mark, sentences with numbers of every form.',
        "thorough": 'three words of all kinds, four number words, three words with gaps',
    },
    "outside": 'No language given: the words left may be of another language.',
}


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for l in lex.LANGS:
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(("any %d words %s" % (n, l), "words", {"lang": l, "n": n, "pool": "all"}))
        for n in (3, 4) if deep else (3,):
            out.append(("any %d number words %s" % (n, l), "words", {"lang": l, "n": n, "pool": "numbers"}))
        out.append(("outer blanks %s" % l, "outer", {"lang": l}))
        out.append(("runs %s" % l, "runs", {"lang": l}))
        out.append(("gaps %s" % l, "gaps", {"lang": l, "n": 3 if deep else 2}))
        for k in phrases.kinds(l):
            out.append(("%s %s" % (k, l), "phrase", {"lang": l, "kind": k}))
    return out
