From a0c8810f3641782ab06b51fd2302ba543e84c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 1/8] fix: parse_number crashed on numeric characters that are
 not decimal digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

int() only accepts decimal digits, so "½" or "五" raised ValueError
instead of returning None.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..01b8003 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,7 +297,7 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
+    if input_string.strip().isdecimal():
         return int(input_string)
 
     if language is None:
-- 
2.43.0


From a95ef6cf23ffe2a3249d299b7818dc6e893c5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 2/8] fix: parse_number returned a number for text without
 number words

"-", " and" and "'" were read as 0, and surrounding whitespace decided whether
a leading skip token was accepted ("and two" vs " and two").
---
 number_parser/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 01b8003..28e88d2 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,6 +311,9 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
+    normalized_tokens = [token for token in normalized_tokens if token.strip()]
+    if not normalized_tokens:
+        return None
     for index, token in enumerate(normalized_tokens):
         if _is_cardinal_token(token, lang_data) or not token.strip():
             continue
-- 
2.43.0


From ad0bc7ea5569bcf1c0318e3f0ea2797b790624a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 3/8] fix: "zero" was silently dropped when next to other
 number words

"zero thousand" was read as 1000 and "twenty zero" as 20.
---
 number_parser/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 28e88d2..da55136 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -53,7 +53,14 @@ def _check_validity(
     if previous_token is None:
         return True
 
-    if (
+    if 0 in (
+        lang_data.unit_numbers.get(current_token),
+        lang_data.unit_numbers.get(previous_token),
+    ):
+        # "zero" is always a number on its own
+        return False
+
+    elif (
         current_token in lang_data.unit_and_direct_numbers
         and previous_token in lang_data.unit_and_direct_numbers
     ):
-- 
2.43.0


From 9693e38ba4b1320f9927e9ca1ceec0cd3bd56707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 4/8] fix: parse dropped or lowercased words that follow a
 number

Conjunctions were lost at the end of the text or of a sentence ("two and." became
"2."), when repeated, and written back in lowercase ("two AND cows"); combining
marks after a number were lost too.
---
 number_parser/parser.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index da55136..b8775e9 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -121,7 +121,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(token, lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -232,7 +232,7 @@ def _is_number_token(token, lang_data):
 
 
 def _is_skip_token(token, lang_data):
-    return token in lang_data.skip_tokens
+    return _strip_accents(token.lower()) in lang_data.skip_tokens
 
 
 def _apply_cardinal_conversion(
@@ -382,10 +382,15 @@ def parse(input_string, language=None):
 
     def _build_and_add_number(pop_last_space=False):
         if tokens_taken:
+            # when finishing with skip tokens --> keep them
+            skip_tokens = []
+            while _is_skip_token(tokens_taken[-1], lang_data):
+                skip_tokens.insert(0, tokens_taken.pop())
+
             result = _build_number(tokens_taken, lang_data)
             tokens_taken.clear()
 
-            for number in result:
+            for number in result + skip_tokens:
                 current_sentence.extend([number, " "])
 
             if pop_last_space:
@@ -395,7 +400,7 @@ def parse(input_string, language=None):
         compare_token = _strip_accents(token.lower())
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
-        if not compare_token.strip():
+        if not token.strip():
             if not tokens_taken:
                 current_sentence.append(token)
                 pop_last_space = True
@@ -413,18 +418,11 @@ def parse(input_string, language=None):
         if ordinal_number:
             tokens_taken.append(ordinal_number)
             _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(token, lang_data) and len(tokens_taken) != 0:
+            tokens_taken.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-- 
2.43.0


From 393f65fd5a70e2beeebf199e889f3576284b4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 5/8] fix: parse_fraction only recognised lowercase separators

parse_fraction("One Over Two") returned None although letter case is ignored in
the numbers themselves.
---
 number_parser/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index b8775e9..8e83d87 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -342,6 +342,7 @@ def parse_fraction(input_string, language=None):
         language = _valid_tokens_by_language(input_string)
 
     FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]
+    input_string = input_string.lower()
 
     for separator in FRACTION_SEPARATORS:
         position_of_separator = input_string.find(separator)
-- 
2.43.0


From 44f3df6f24122efaa2caee7faa020aad3f1ae814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 6/8] fix: Spanish "decillones" is 10^60, like its singular

---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From a93a5cbcbb554d95e83155bf99d73495a9769052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 7/8] fix: Ukrainian words spelled with an apostrophe were not
 recognised
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The apostrophe-less forms that parse_number looks up (пяти, пятих, пятеро, пятьма,
девяти, девятьма) were missing, and the forms of "500"/"900" added by hand to the
generated file were not in its source, so regenerating the data lost them.
---
 number_parser/data/uk.py                       | 18 ++++++++++++------
 .../supplementary_translation_data/uk.json     | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/number_parser/data/uk.py b/number_parser/data/uk.py
index 27aa423..5f82519 100644
--- a/number_parser/data/uk.py
+++ b/number_parser/data/uk.py
@@ -34,7 +34,11 @@ info = {
         "пʼятих": 5,
         "пʼять": 5,
         "пʼятьма": 5,
+        "пятеро": 5,
+        "пяти": 5,
+        "пятих": 5,
         "пять": 5,
+        "пятьма": 5,
         "шести": 6,
         "шість": 6,
         "шістьма": 6,
@@ -47,7 +51,9 @@ info = {
         "девʼяти": 9,
         "девʼять": 9,
         "девʼятьма": 9,
-        "девять": 9
+        "девяти": 9,
+        "девять": 9,
+        "девятьма": 9
     },
     "DIRECT_NUMBERS": {
         "десять": 10,
@@ -80,18 +86,18 @@ info = {
         "двісті": 200,
         "триста": 300,
         "чотириста": 400,
-        "п'ятсот": 500,
-        "пʼятсот": 500,
         "п'ятисот": 500,
+        "п'ятсот": 500,
         "пʼятисот": 500,
-        "пятсот": 500,
+        "пʼятсот": 500,
         "пятисот": 500,
+        "пятсот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "девятсот": 900,
         "дев'ятсот": 900,
-        "девʼятсот": 900
+        "девʼятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяч": 1000,
diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..7216e64 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -35,6 +35,10 @@
         "пʼяти": 5,
         "пʼятих": 5,
         "пʼятьма": 5,
+        "пятеро": 5,
+        "пяти": 5,
+        "пятих": 5,
+        "пятьма": 5,
         "шість": 6,
         "шести": 6,
         "шістьма": 6,
@@ -47,7 +51,9 @@
         "девʼять": 9,
         "девять": 9,
         "девʼяти": 9,
-        "девʼятьма": 9
+        "девʼятьма": 9,
+        "девяти": 9,
+        "девятьма": 9
     },
     "DIRECT_NUMBERS": {
         "десять": 10,
@@ -81,10 +87,15 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "дев'ятсот": 900
+        "дев'ятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяча": 1000,
-- 
2.43.0


From 1d18513403cf5bf0ea0fbb238177906b23a1e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 8/8] fix: parse_number crashed on digits next to a separator
 control character

str.strip() removes \x1c to \x1f, int() does not.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 8e83d87..4b49221 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -305,7 +305,7 @@ def parse_number(input_string, language=None):
         return None
 
     if input_string.strip().isdecimal():
-        return int(input_string)
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0

