"""Frozen number words of the five languages (lexicon.json), independent of
the tables the repository ships."""
import json
import os

with open(
    os.path.join(os.path.dirname(__file__), "lexicon.json"), encoding="utf-8"
) as fh:
    RAW = json.load(fh)

LANGS = ["en", "es", "hi", "ru", "uk"]

UNITS = {l: RAW[l]["UNIT_NUMBERS"] for l in LANGS}
DIRECT = {l: RAW[l]["DIRECT_NUMBERS"] for l in LANGS}
TENS = {l: RAW[l]["TENS"] for l in LANGS}
HUNDREDS = {l: RAW[l]["HUNDREDS"] for l in LANGS}
POWERS = {l: RAW[l]["BIG_POWERS_OF_TEN"] for l in LANGS}
SKIP = {l: RAW[l]["SKIP_TOKENS"] for l in LANGS}

VALUE = {
    l: {**UNITS[l], **DIRECT[l], **TENS[l], **HUNDREDS[l], **POWERS[l]} for l in LANGS
}


def simple(d):
    """Without the words that hold an ASCII apostrophe (two tokens for parse)."""
    return [w for w in d if "'" not in w]


NONZERO_UNITS = {l: [w for w, v in UNITS[l].items() if v and "'" not in w] for l in LANGS}
ZEROS = {l: [w for w, v in UNITS[l].items() if v == 0] for l in LANGS}
DIRECTS = {l: simple(DIRECT[l]) for l in LANGS}
ONES = {l: NONZERO_UNITS[l] + DIRECTS[l] for l in LANGS}
TENWORDS = {l: simple(TENS[l]) for l in LANGS}
HUNDREDWORDS = {l: simple(HUNDREDS[l]) for l in LANGS}
POWERWORDS = {l: simple(POWERS[l]) for l in LANGS}
# powers that scale a group (thousand and up)
SCALES = {l: [w for w in simple(POWERS[l]) if POWERS[l][w] >= 1000] for l in LANGS}
WORDS = {l: simple(VALUE[l]) for l in LANGS}
ALL = {l: set(VALUE[l]) for l in LANGS}


def base(text):
    """Letters without their accents."""
    import unicodedata

    return "".join(
        c
        for c in unicodedata.normalize("NFD", text)
        if unicodedata.category(c) != "Mn"
    )
