"""Symbolic canonical numbers of any language."""
from spec import en, grammar, lex

LANGS = lex.LANGS


def kinds(lang):
    """Names of the forms `number` can build."""
    if lang == "en":
        return ["unit", "teen", "tens", "tens-unit", "tens unit", "hundred", "hundred and", "scale", "scale unit"]
    g = grammar.LANG[lang]
    out = ["form%d" % i for i in range(len(g["forms"]))]
    return out + ["hundred", "scale", "scale unit"]


def number(h, tag, lang, kind):
    """(text, value) of a number of the given form."""
    v = lex.VALUE[lang]
    if lang == "en":
        if kind == "unit":
            w = h.word(tag, en.ONES)
            return w, en.ONE[w]
        if kind == "teen":
            w = h.word(tag, en.TEENS)
            return w, en.TEEN[w]
        if kind == "tens":
            w = h.word(tag, en.TENS)
            return w, en.TEN[w]
        if kind in ("tens-unit", "tens unit"):
            a = h.word(tag + "t", en.TENS)
            b = h.word(tag + "u", en.ONES)
            return a + kind[4] + b, en.TEN[a] + en.ONE[b]
        a = h.word(tag + "h", en.ONES)
        if kind == "hundred":
            return a + " hundred", en.ONE[a] * 100
        if kind == "hundred and":
            t = h.word(tag + "t", en.TEENS)
            return a + " hundred and " + t, en.ONE[a] * 100 + en.TEEN[t]
        s = h.word(tag + "s", en.SCALES)
        if kind == "scale":
            return a + " " + s, en.ONE[a] * en.SCALE[s]
        b = h.word(tag + "u", en.ONES)
        return a + " " + s + " " + b, en.ONE[a] * en.SCALE[s] + en.ONE[b]
    g = grammar.LANG[lang]
    if kind.startswith("form"):
        return grammar.below_1000(h, tag, g, (False, int(kind[4:])))
    if kind == "hundred":
        return grammar.below_1000(h, tag, g, (True, 0))
    s = h.word(tag + "s", lex.SCALES[lang])
    t, x = grammar.scaled(h, tag, g, (False, 0), s)
    if kind == "scale unit":
        u = h.word(tag + "x", lex.NONZERO_UNITS[lang])
        return t + " " + u, x + v[u]
    return t, x


OTHER = {
    "en": ["cows", "the", "The", "x", "o", "ones", "tenfold", "someone", "AND", "teenth", "hundreds", "Zeroes", "überfluß", "naïve", "th", "ieth", "-", "/", "?", "'", "(", "№", "½", "12a", "_", "don't", "by", "over", "y", "dos"],
    "es": ["vacas", "la", "El", "x", "unos", "unas", "veinti", "cientos", "Y", "ningún", "niño", "ochentena", "-", "/", "¿", "(", "½", "12a", "_", "primero", "media", "and", "two"],
    "hi": ["गाय", "और", "है", "x", "एकता", "दोनों", "सैकड़ा", "-", "/", "?", "(", "½", "12a", "_", "आधा", "one", "cows.", "and", "dos"],
    "ru": ["коров", "И", "и", "x", "однако", "двое", "сотня", "миллионер", "ёж", "-", "/", "?", "(", "½", "12a", "_", "первый", "половина", "one", "and", "dos"],
    "uk": ["корів", "Та", "і", "x", "однак", "сотня", "мільйонер", "їжак", "ґанок", "-", "/", "?", "(", "½", "12a", "_", "перший", "половина", "one", "and", "dos"],
}
# without characters that split words
PLAIN = {
    l: [w for w in ws if w.replace("_", "a").isalnum() and w not in ("AND", "Y", "½")]
    for l, ws in OTHER.items()
}
