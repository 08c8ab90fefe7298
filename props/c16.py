"""Languages that are not supported."""
from spec import lex, phrases

APIS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
# codes that look like supported ones, other languages of the data folder
NAMES = [
    "", " ", "EN", "En", "eN", "en ", " en", "en\n", "en-US", "en_US", "en-IN", "eng", "e", "n", "english", "English",
    "ES", "es-419", "es_MX", "spa", "HI", "hi-IN", "hin", "RU", "ru-RU", "rus", "ru_RU", "UK", "uk-UA", "ua", "ukr",
    "en,es", "en es", "enes", "ene", "s", "h", "r", "u", "None", "none", "auto", "*", "xx", "und", "root", "C", "e\xadn", "ｅｎ", "еn", "\x00",
    "af", "ak", "am", "ar", "az", "be", "bg", "bs", "ca", "cs", "cy", "da", "de", "de-CH", "ee", "el", "eo", "et", "fa", "fi", "fil",
    "fr", "fr-BE", "ga", "he", "hr", "hu", "hy", "id", "is", "it", "ja", "ka", "ko", "lt", "lv", "mk", "ms", "nb", "nl", "pl", "pt",
    "pt-PT", "ro", "sk", "sl", "sq", "sr", "sv", "th", "tr", "vi", "zh", "../data/en", "en.info", ".en", "data.en", "British English", "Russian (Russia)", "english language", "en-Latn-US-u-nu-latn", "en" * 50, "x" * 200,
]
LETTERS = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. éıѕ")


def refused(h, api, t, lang):
    o = h.call(api, t, lang)
    h.check(o.kind == "ValueError", api + " accepts a language that is not supported")


def text(h, api, kind):
    """A text for which every function has to look at the language."""
    lang = h.choice("text in", ["en", "es", "ru"])
    t, v = phrases.number(h, "n", lang, kind)
    o = h.word("o", ["", " cows", " -", "!", " 12"])
    t = t + o
    return t + "/" + t if api == "parse_fraction" else t


def named(h, api):
    t = text(h, api, "hundred")
    refused(h, api, t, h.word("lang", NAMES))


def spelled(h, api, n):
    """Any short string of letters but the five codes."""
    c = ""
    for i in range(n):
        c = c + h.word("c%d" % i, LETTERS)
    if n == 2:
        for l in lex.LANGS:
            h.assume(c != l)
    t = h.word("t", ["one two", "x", "cuatro", "первый", "- -", "one hundred"])
    refused(h, api, t + "/" + t if api == "parse_fraction" else t, c)


def any_text(h, api):
    """Whatever the text: words of any language, marks, other words."""
    l = h.choice("text in", lex.LANGS)
    a = h.word("a", lex.WORDS[l] + phrases.OTHER[l])
    b = h.word("b", ["", " ", " x", " -", ",", "!", " ½"])
    c = h.word("lang", ["EN", "fr", "", "en-US", "e"])
    if api == "parse":
        refused(h, api, b + a + b, c)
    elif api == "parse_fraction":
        refused(h, api, "x" + a + b + " / " + a, c)
    else:
        refused(h, api, "x" + a + b, c)


def one_side(h, first):
    """A fraction with the language left to one of its sides."""
    l = h.choice("text in", lex.LANGS)
    a = h.word("a", lex.WORDS[l] + phrases.OTHER[l])
    d = h.word("d", ["", " ", "2", "10 ", " 7"])
    s = h.word("s", ["/", " / ", " over ", " by ", " divided by ", " Over "])
    refused(h, "parse_fraction", a + s + d if first else d + s + a, h.word("lang", NAMES))


def even_empty(h):
    """parse looks at the language for any text."""
    t = h.word("t", ["", " ", "\n", "12", "½", "x", ",", "."])
    refused(h, "parse", t, h.word("lang", NAMES))


def supported(h):
    """The five codes, and none at all, are never refused."""
    l = h.choice("lang", lex.LANGS + [None])
    k = h.choice("text in", lex.LANGS)
    a = h.word("a", lex.WORDS[k] + phrases.OTHER[k])
    b = h.word("b", ["", " ", "/x", " -", ",", "!", " ½", " over one"])
    for api in APIS:
        o = h.call(api, a + b, l)
        h.check(o.exc is None, api + " raised an exception for a supported language")


META = {
    "budget": (200, 700),
    "bounds": {
        "quick": 'about 120 codes; every string of one to five characters out of 70; numbers and other words of every language as text.',
        "thorough": 'every string of one to eight characters',
    },
    "outside": 'Arguments that are not strings; texts that are blank or digits only, fractions without a separator and fractions with nothing but blanks and digits on both sides return before the language is looked at.',
}


def jobs(tier):
    out = []
    for api in APIS:
        out.append(("%s, language codes" % api, "named", {"api": api}))
        out.append(("%s, any text" % api, "any_text", {"api": api}))
        for n in range(1, 6) if tier == "quick" else range(1, 9):
            out.append(("%s, %d letters" % (api, n), "spelled", {"api": api, "n": n}))
    out.append(("parse_fraction, words above", "one_side", {"first": True}))
    out.append(("parse_fraction, words below", "one_side", {"first": False}))
    out.append(("parse, any code", "even_empty", {}))
    out.append(("supported", "supported", {}))
    return out
