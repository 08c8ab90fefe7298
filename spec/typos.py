"""Words that only look like number words."""
import unicodedata

from spec import en, lex

ALPHABET = {
    "en": "abcdefghijklmnopqrstuvwxyz",
    "es": "abcdefghijklmnopqrstuvwxyz",
    "hi": "कखगचजटडतदनपबमरलवसहािीेोौए",
    "ru": "абвгдежзиклмнопрстухцчшыьэюя",
    "uk": "абвгдежзиіклмнопрстухцчшьюя",
}
# look-alikes, letter by letter
LATIN = dict(zip("aceopxyi", "асеорхуі"))
GREEK = dict(zip("otuvxn", "οτυνχη"))
CYRILLIC = {b: a for a, b in LATIN.items()}


def known(lang):
    out = {lex.base(w.lower()) for w in lex.ALL[lang]} | {lex.base(w.lower()) for w in lex.SKIP[lang]}
    if lang == "en":
        out |= set(en.ORDINAL_WORDS)
    return out


def edits(lang, w, letters):
    """One letter replaced, left out, doubled, swapped, added."""
    for i in range(len(w)):
        yield w[:i] + w[i + 1 :]
        yield w[:i] + w[i] + w[i:]
        if i:
            yield w[: i - 1] + w[i] + w[i - 1] + w[i + 1 :]
        for c in letters:
            yield w[:i] + c + w[i + 1 :]
    for c in letters:
        yield w + c
        yield c + w


def whole(w, at):
    """The word in other letters of the same meaning."""
    return "".join(chr(at + ord(c) - 97) if "a" <= c <= "z" else c for c in w)


def looks(lang, w):
    for table in (LATIN, GREEK, CYRILLIC):
        t = "".join(table.get(c, c) for c in w)
        yield t
        for i, c in enumerate(w):
            if c in table:
                yield w[:i] + table[c] + w[i + 1 :]
    b = lex.base(w)
    for at in (0xFF41, 0x1D41A, 0x1D44E):
        t = whole(b, at)
        if unicodedata.category(t[-1]) != "Cn":
            yield t
    for i, c in enumerate(b):
        if "a" <= c <= "z":
            yield b[:i] + chr(0xFF41 + ord(c) - 97) + b[i + 1 :]
    yield b.replace("fi", "ﬁ").replace("fo", "ﬀo")
    yield b.replace("s", "ſ")
    yield b.replace("i", "ı")
    yield b.replace("o", "0").replace("l", "1")
    yield b.replace("e", "3")
    yield w.replace("o", "º")


IRREGULAR = {"first": "one", "second": "two", "third": "three", "fifth": "five", "eighth": "eight", "ninth": "nine", "twelfth": "twelve"}


def misspelt_ordinal(t, ok):
    """Misspelt ordinals ("oneth", "eighthy") are read; nothing is claimed of them."""
    for word, cardinal in IRREGULAR.items():
        t = t.replace(word, cardinal)
    return t in ok or (t.endswith("ieth") and t[:-4] + "y" in ok) or (t.endswith("th") and t[:-2] in ok)


def alike(lang, step=1, nletters=8):
    """Words near those of a language that are none of them, and stay one
    piece when the text is cut."""
    ok = known(lang)
    out = {}
    for n, w in enumerate(lex.WORDS[lang] + (list(en.ORDINAL_WORDS) if lang == "en" else [])):
        if n % step or "'" in w:
            continue
        a = ALPHABET[lang]
        letters = [a[(n + k * 3) % len(a)] for k in range(min(nletters, len(a)))]
        for t in list(edits(lang, w, letters)) + list(looks(lang, w)):
            if misspelt_ordinal(lex.base(t.lower()), ok):
                continue
            if t and t != w and lex.base(t.lower()) not in ok and t == t.strip() and (lang == "hi" or all(c.isalnum() for c in lex.base(t))):
                out[t] = None
    return list(out)
