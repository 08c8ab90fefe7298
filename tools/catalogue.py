"""Writes properties.jsonl and MANIFEST.json, and checks them.

The statements are here; bounds, budgets and what lies outside them are in the
META of each harness (props/)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "number_parser/parser.py"
I = "number_parser/__init__.py"


def data(*langs):
    return ["number_parser/data/%s.py" % l for l in langs]


ALLDATA = data("en", "es", "hi", "ru", "uk")


def m(name, fn, file=P):
    return {"name": name, "where": "%s:%s" % (file, fn)}


BUILD = [
    m("accumulation of groups and scale words", "_build_number"),
    m("whether a word continues the number before it", "_check_validity"),
    m("scale words larger than everything before them", "_check_large_multiplier"),
]

PROPS = [
    dict(
        id="C01",
        title="English cardinals have their value",
        statement="For every English cardinal in words (zero; hundreds with or without \"and\", hyphenated or spaced tens, scale words thousand to sextillion in descending order; \"and\" may also join groups), parse_number gives exactly the integer it names. parse gives the decimal digits of that integer.",
        over=["inputs"],
        text="every canonical English cardinal: any words in every position, any descending choice of scale words, up to 24 digits",
        why="The tests sample some dozens of numbers and one list of numbers below a few thousand; the canonical cardinals are 10^24.",
        files=[P] + data("en"),
        mech=BUILD + [m("English number words", "info", "number_parser/data/en.py")],
    ),
    dict(
        id="C02",
        title="Spanish cardinals have their value",
        statement="For every Spanish cardinal in words (irregular hundreds, tens joined by \"y\", \"mil\" alone or multiplied, the long-scale words with groups of up to six digits, descending), parse_number gives exactly the integer it names and parse its digits. Every Spanish number word, in each gender and number form, has its value.",
        over=["inputs"],
        text="every Spanish number word; every canonical Spanish cardinal built from them, with up to seven scale words",
        why="The tests hold a few dozen Spanish numbers; most scale words and nearly all combinations are never run.",
        files=[P] + data("es"),
        mech=BUILD + [m("group size of the long scale", "LanguageData.__init__"), m("Spanish number words", "info", "number_parser/data/es.py")],
    ),
    dict(
        id="C03",
        title="Hindi cardinals have their value",
        statement="For every Hindi cardinal in words (the irregular names below a hundred, hundreds, and the Indian scale words thousand, lakh, crore and up in descending order or multiplied), parse_number gives exactly the integer it names and parse its digits. Every Hindi number word has its value, in each spelling.",
        over=["inputs"],
        text="every Hindi number word; every canonical Hindi cardinal built from them, with up to five scale words",
        why="The tests hold a few dozen Hindi numbers; most of the hundred irregular names meet the scale words in no test.",
        files=[P] + data("hi"),
        mech=BUILD + [m("Hindi words are only split at blanks", "_tokenize"), m("Hindi number words", "info", "number_parser/data/hi.py")],
    ),
    dict(
        id="C04",
        title="Russian cardinals have their value",
        statement="For every Russian cardinal in words, in any of the grammatical cases and genders the library knows, parse_number gives exactly the integer it names and parse its digits. Scale words may stand alone or be multiplied, in descending order.",
        over=["inputs"],
        text="every Russian number word form; every canonical cardinal with any form in every position, up to seven scale words",
        why="The tests hold a few dozen Russian numbers, mostly in one case; the declined forms mix in 10^20 ways.",
        files=[P] + data("ru"),
        mech=BUILD + [m("Russian number words", "info", "number_parser/data/ru.py")],
    ),
    dict(
        id="C05",
        title="Ukrainian cardinals have their value",
        statement="For every Ukrainian cardinal in words, in any of the grammatical cases and genders the library knows, parse_number gives exactly the integer it names and parse its digits. Words with an apostrophe are read by parse_number with and without it.",
        over=["inputs"],
        text="every Ukrainian number word form; every canonical cardinal with any form in every position, up to seven scale words",
        why="The tests hold a few dozen Ukrainian numbers, mostly in one case; the declined forms mix in 10^20 ways.",
        files=[P] + data("uk"),
        mech=BUILD + [m("apostrophes are dropped", "parse_number"), m("Ukrainian number words", "info", "number_parser/data/uk.py")],
    ),
    dict(
        id="C06",
        title="English ordinals have the value of their cardinal",
        statement="For every English ordinal in words, parse_ordinal gives the integer that the corresponding cardinal names, parse gives its digits, and parse_number gives None. An ordinal ends its number: a number word that follows in a sentence starts a new one.",
        over=["inputs"],
        text="every canonical English ordinal with up to two scale words (three in the thorough tier)",
        why="The tests sample ordinals; the last word of any number can take any ordinal form in any context.",
        files=[P],
        mech=[m("ordinal to cardinal form", "_apply_cardinal_conversion"), m("ordinal words", "_is_ordinal_token"), m("ordinals in a sentence", "parse"), m("single ordinals", "parse_ordinal")] + BUILD[:1],
    ),
    dict(
        id="C07",
        title="A fraction is its two numbers joined by a slash",
        statement="For a number, one of the separators \"divided by\", \"over\", \"by\" or \"/\" in any case, and another number, parse_fraction gives \"numerator/denominator\" in digits, in every supported language. When a side is not exactly one number, or there is no separator, it gives None.",
        over=["inputs"],
        text="any numbers of any form on both sides, every separator and case, and any non-number on a side",
        why="The tests sample a few dozen English fractions; the combinations of forms, separators and languages are unbounded.",
        files=[P],
        mech=[m("search for the separator and split", "parse_fraction"), m("each side", "parse_number")],
    ),
    dict(
        id="C08",
        title="Neighbouring numbers that do not compose stay apart",
        statement="Number words in a row are cut into numbers from the left: each number takes as many words as together still are one number, and words that cannot belong together (two units, a unit and a teen, two tens, zero and anything) are separate numbers. parse gives all of them in order, none lost, none used twice, and parse_number gives None when there is more than one.",
        over=["inputs"],
        text="any two or three number words of a language in a row (four in the thorough tier for some), rows of up to eight units",
        why="The tests hold a handful of ambiguous word rows; there are millions of rows of three words.",
        files=[P],
        mech=[m("whether a word continues the number before it", "_check_validity"), m("several numbers in a row", "_build_number"), m("more than one number", "parse_number")],
    ),
    dict(
        id="C09",
        title="parse keeps everything that is not a number",
        statement="parse replaces numbers and leaves all other words, marks and their order and case as they were, in every supported language; a text without number words comes back unchanged except for outer blanks, which are dropped. Conjunctions (\"and\", \"-\", \"y\") that join no two parts of one number are kept too, before, behind and between.",
        over=["inputs"],
        text="arbitrary short strings over about 900 characters without number words, words around numbers of every form, conjunctions at every place",
        why="The tests hold a few dozen sentences; what surrounds a number is arbitrary text.",
        files=[P],
        mech=[m("rebuilding the sentence", "parse"), m("splitting into words and separators", "_tokenize"), m("conjunctions", "_is_skip_token")],
    ),
    dict(
        id="C10",
        title="Full stops and commas separate numbers",
        statement="A \".\" or \",\" ends the number before it: parse of two texts with such a mark between them gives the two results with the mark, and the blanks behind it, between them. parse_number gives None for two numbers with a mark between them.",
        over=["inputs"],
        text="any one or two words on either side of the mark, any number forms, lists of four numbers",
        why="The tests hold a few sentences with commas; any words may stand on either side.",
        files=[P],
        mech=[m("sentence separators", "parse"), m("set of separators", "SENTENCE_SEPARATORS")],
    ),
    dict(
        id="C11",
        title="What is not exactly one number is refused",
        statement="parse_number and parse_ordinal give None when the text has no number words, holds any word that is neither a number word nor a conjunction, starts with a conjunction or a sign, has a mark beside a number word, or holds more than one number. No prefix, suffix or gluing of words is guessed at.",
        over=["inputs"],
        text="every number form with any of the other words and marks at every place; any two number words glued together",
        why="The tests check a handful of invalid texts; what has to be refused is everything else.",
        files=[P],
        mech=[m("every word must be known", "parse_number"), m("parse_ordinal relies on it", "parse_ordinal")],
    ),
    dict(
        id="C12",
        title="No text makes the library fail",
        statement="For any text and any supported language, or none, the four functions return without an exception: parse a string, parse_number and parse_ordinal a non-negative integer or None, parse_fraction a string or None.",
        over=["inputs"],
        text="any one of about 2,500 characters, two or three characters, a character beside a word, any words in any order",
        why="The tests never run unusual characters; two crashes on single characters were found and repaired here.",
        files=[P],
        mech=[m("digits", "parse_number"), m("trailing conjunctions", "parse"), m("splitting", "_tokenize"), m("accents", "_strip_accents")],
    ),
    dict(
        id="C13",
        title="Digits are numbers already",
        statement="parse_number and parse_ordinal of a text of decimal digits (of any script, blanks around allowed) give that integer; digits with signs, marks or numeric characters that are no decimal digits give None. parse leaves digits alone and never merges them with number words next to them.",
        over=["inputs"],
        text="up to eight digits of nine scripts, every mark, digits beside any number word in any language",
        why="The tests hold a few digit strings; two crashes on unusual digits were found and repaired here.",
        files=[P],
        mech=[m("digits", "parse_number"), m("digits are words like any other", "parse")],
    ),
    dict(
        id="C14",
        title="Case, accents, soft hyphens and blanks do not matter",
        statement="A number word means the same in any mix of upper and lower case, with any accents (one code point per letter) or none, with soft hyphens in it, and with any kind and number of blanks between and around the words of a number. English compounds mean the same with hyphen or blank, and parse_number ignores apostrophes.",
        over=["inputs"],
        text="every letter of every number word in every case and with every accent; every blank; soft hyphens behind any letters",
        why="The tests hold a few accented and capitalised words; the spellings of one ten-letter word are 2^10 in case alone.",
        files=[P],
        mech=[m("accents", "_strip_accents"), m("lower case", "_normalize_tokens"), m("accents of the known words", "_normalize_dict"), m("soft hyphens and splitting", "_tokenize")],
    ),
    dict(
        id="C15",
        title="Without a language, the one that knows most words is used",
        statement="When no language is given, all four functions behave as with the supported language that knows most words of the text (number words, conjunctions, English ordinals). Ties go to the first of en, es, hi, ru, uk; a text without known words is read as English.",
        over=["inputs"],
        text="any texts of up to five words mixed from the five languages (six in the thorough tier)",
        why="The tests hold ten texts for detection; the mixtures and ties of five languages are unbounded.",
        files=[P],
        mech=[m("counting known words", "_valid_tokens_by_language"), m("default of each function", "parse"), m("default of each function", "parse_number"), m("default of each function", "parse_ordinal"), m("default of each function", "parse_fraction")],
    ),
    dict(
        id="C16",
        title="Unsupported languages are refused",
        statement="For any language that is not exactly one of en, es, hi, ru, uk (also \"EN\", \"en-US\", \"\" or a language only the data folder knows), parse raises ValueError for every text, parse_number and parse_ordinal for every text that is not blank or decimal digits, and parse_fraction for every text with a separator and a side that is neither blank nor decimal digits. The five codes and None are never refused.",
        over=["inputs"],
        text="about 120 codes and every string of up to five letters (eight in the thorough tier), with any text",
        why="The tests try one or two wrong codes with one text.",
        files=[P],
        mech=[m("check of the language", "LanguageData.__init__"), m("supported languages", "SUPPORTED_LANGUAGES")],
    ),
    dict(
        id="C17",
        title="A result does not depend on earlier calls",
        statement="Every function gives for the same arguments the same result, whatever calls (any function, text, language, also ones that failed) were made before in the process, and however often it is repeated.",
        over=["histories", "inputs"],
        text="histories of one to five calls with the same, similar or other texts in every language, and of 60 calls (300 in the thorough tier), before any probe",
        why="Tests run calls in one fixed order and never compare with a fresh process.",
        files=[P] + ALLDATA,
        mech=[m("per-call language data", "LanguageData.__init__"), m("per-call state", "_build_number"), m("per-call state", "parse")],
    ),
    dict(
        id="C18",
        title="Parsing the result again changes nothing",
        statement="In a given language, parse applied to its own result gives the same text: one pass converts every number, and digits and all other text are stable.",
        over=["inputs"],
        text="any two words (three in the thorough tier) and any three number words of a language, any marks between, every number form in a sentence",
        why="No test parses a result again.",
        files=[P],
        mech=[m("rebuilding the sentence", "parse"), m("several numbers in a row", "_build_number")],
    ),
    dict(
        id="C19",
        title="The four functions agree with each other",
        statement="For words in a row separated by single blanks: when parse_number gives an integer, parse gives its digits (and conjunctions that trail behind), and when parse_number gives None, parse does not give digits only. parse_ordinal equals parse_number on texts without ordinals, and parse_fraction gives what parse_number gives for both sides.",
        over=["inputs"],
        text="any up to three words (four in the thorough tier) out of all number words, conjunctions, digits and some other words, in every language",
        why="No test compares two functions on the same text.",
        files=[P],
        mech=[m("single numbers", "parse_number"), m("numbers in a sentence", "parse"), m("ordinals", "parse_ordinal"), m("fractions", "parse_fraction")],
    ),
    dict(
        id="C20",
        title="Spell-out rules become the right table entries",
        statement="The data generator turns each CLDR spell-out rule into the entry it stands for: plain names below 10 and below 100, words of the tens and the hundreds (from 20 and 200), words of powers of ten from 100 with all plural forms, each with its value. Rules with \"=\", \"ERROR\", empty or non-integer keys give no entry; only cardinal and numbering rule sets that are not about cents are read.",
        over=["inputs"],
        text="every key 0..129, all round numbers to 9*10^18, eight names, and the rule tails and heads of the CLDR format",
        why="No test runs the generator.",
        files=["number_parser_scripts/write_complete_language_data.py"],
        mech=[m("kind of rule", "_extract_information", "number_parser_scripts/write_complete_language_data.py"), m("rule sets", "_is_valid", "number_parser_scripts/write_complete_language_data.py")],
    ),
    dict(
        id="C21",
        title="The table modules are the rules plus the supplementary words",
        statement="The data generator writes one module for each language with spell-out rules (none for root and es-419), whatever the order in which the files are listed: the entries of its cardinal and numbering rules without soft hyphens, with the supplementary words added or put in their place, ordered by number and word, the conjunctions sorted, the kind of scale kept; files do not influence each other. The shipped modules of all languages hold exactly the words, numbers, conjunctions and scale that the generator makes of the rule files in the repository.",
        over=["inputs", "configurations"],
        text="symbolic rules, supplementary words and listings of up to six files; the rule files of all languages in the repository, any word of any table",
        why="No test runs the generator.",
        files=["number_parser_scripts/write_complete_language_data.py", "number_parser/data"],
        mech=[m("merging and writing", "write_complete_data", "number_parser_scripts/write_complete_language_data.py")],
    ),
    dict(
        id="C22",
        title="Concurrent calls do not disturb each other",
        statement="A call of one of the four functions that is interrupted before any of its statements by a call from another thread, in the same or another language, gives the result it gives alone, and so does the other call: whether the other call runs to its end first, or is itself interrupted before any of its statements until the first one has ended.",
        over=["schedules", "inputs"],
        text="the statement of the interruption is symbolic, so are the words of both texts; eight pairs of functions and languages (40 in the thorough tier), and of both interruptions for four pairs",
        why="No test uses threads.",
        files=[P],
        mech=[m("per-call language data", "LanguageData.__init__"), m("per-call state", "_build_number"), m("per-call state", "parse")],
    ),
    dict(
        id="C23",
        title="Other words part a text",
        statement="A word or mark that is no number word and no conjunction parts the text: parse of two texts with such a word between them gives the result of the first, the word, and the result of the second, in every supported language. Nothing that was read before it changes how the rest is read, nor the other way round.",
        over=["inputs", "histories"],
        text="two texts of up to three words of any kind with any other word between them, numbers of every form on both sides, and numbers repeated far from each other",
        why="The tests hold few sentences with two numbers; a state that is left over after a word shows only for some pairs.",
        files=[P],
        mech=[m("end of a number at another word", "parse"), m("state of the number being read", "parse"), m("cutting into numbers", "_build_number")],
    ),
]

NOT_APPLICABLE = {}

TECH = "symbolic execution of the source with z3: bounded, solver-decided, counterexamples replayed"
NOTE = (
    "Holds for all values within the bounds named in the evidence: every path of the "
    "harness over the rewritten source is explored, input words and characters are solver variables, "
    "and each assertion is discharged for all of their values. Trusted: z3, the "
    "engine's models of str, re, unicodedata and dict operations (validated on every run by replaying "
    "solver models of paths on the untouched code), and the frozen lexicon and grammar in spec/."
)


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": p["mech"],
                            "observe_at": ["return values of number_parser.parse, parse_number, parse_ordinal, parse_fraction"]
                            if p["files"][0] == P
                            else ["tables filled by the generator"],
                            "hook_needed": None,
                        },
                    },
                    ensure_ascii=False,
                )
                + "\n"
            )
    checks = []
    for p in PROPS:
        if p["id"] in NOT_APPLICABLE:
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "python3-vt symx/run.py %s" % p["id"],
                "thorough_cmd": "python3-vt symx/run.py %s --tier=thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": TECH,
                "level": "model_checking",
                "level_note": NOTE,
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\"",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "One engine (symx/) executes number_parser's current source symbolically; one harness module per property (props/). No hooks in /repo. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, ensure_ascii=False, indent=1)
        fh.write("\n")
    import jsonschema

    with open("/root/.vp/MANIFEST.schema.json") as fh:
        jsonschema.validate(man, json.load(fh))
    with open("/root/.vp/PROPERTIES.schema.json") as fh:
        sch = json.load(fh)
    for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        jsonschema.validate(json.loads(line), sch)


if __name__ == "__main__":
    main()
