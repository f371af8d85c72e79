From 5c7f3b445458d5a239a620356150ab3e1ce8ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 01/99] fix: split strings containing other quotes or escaped
 quotes correctly

---
 sqlvalidator/grammar/tokeniser.py | 53 +++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..28a7305 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,3 +1,4 @@
+import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
@@ -136,17 +137,39 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
+def _find_closing_quote(value: str, quote: str, start: int) -> int:
+    """
+    Index of the quote that closes a string whose content begins at `start`.
+    Backslash-escaped and doubled quotes belong to the string.
+    """
+    index = start
+    while index < len(value):
+        if value[index] == "\\":
+            index += 2
+        elif value[index] != quote:
+            index += 1
+        elif value[index + 1 : index + 2] == quote:
+            index += 2
         else:
-            yield from split_tokens(elem)
+            return index
+    return len(value)
+
+
+def _split_on_string_tokens(value: str):
+    string_start = re.search("|".join(STRING_SPLIT_TOKENS), value)
+    while string_start:
+        quote = string_start.group()
+        if string_start.start():
+            yield from split_tokens(value[: string_start.start()])
+        yield quote
+        closing_index = _find_closing_quote(value, quote, string_start.end())
+        if closing_index > string_start.end():
+            yield value[string_start.end() : closing_index]
+        yield from value[closing_index : closing_index + 1]
+        value = value[closing_index + 1 :]
+        string_start = re.search("|".join(STRING_SPLIT_TOKENS), value)
+    if value:
+        yield from split_tokens(value)
 
 
 def _split_on_whitespace_token(token: str, value: str):
@@ -164,13 +187,9 @@ def _split_on_kept_token(token: str, value: str):
 
 
 def split_tokens(value: str):
-    for string_token in sorted(
-        STRING_SPLIT_TOKENS,
-        key=lambda token: value.index(token) if token in value else (len(value) + 1),
-    ):
-        if string_token in value:
-            yield from _split_on_string_token(string_token, value)
-            return
+    if any(string_token in value for string_token in STRING_SPLIT_TOKENS):
+        yield from _split_on_string_tokens(value)
+        return
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
-- 
2.43.0


From a3311c47f69349c2afd4b7e1a10152c6e83ebe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/99] fix: do not interpret keywords and punctuation inside
 strings

---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 31 ++++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..6d36880 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -52,6 +52,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_not_in,
     get_tokens_until_one_of,
     lower,
+    track_quote,
 )
 
 
@@ -511,10 +512,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            quote = track_quote(next_token, quote)
+            if quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,15 +526,13 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 28a7305..029acd1 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -26,13 +26,29 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def track_quote(token: Optional[str], quote: Optional[str]) -> Optional[str]:
+    """
+    Given the quote of the string that is open before `token` (if any),
+    return the quote of the string that is open after it.
+    """
+    if quote is not None:
+        return None if token == quote else quote
+    return token if token in STRING_SPLIT_TOKENS else None
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = track_quote(next_token, quote)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -48,9 +64,11 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
+    quote = track_quote(first_token, None)
     while next_token is not None and not (
-        lower(next_token) in stop_words
+        quote is None
+        and lower(next_token) in stop_words
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -60,7 +78,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = track_quote(next_token, quote)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From 64cdc052810eb76a29b40078990753bfa6b32986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 03/99] fix: split operators that are not surrounded by spaces

---
 sqlvalidator/grammar/sql.py       | 2 +-
 sqlvalidator/grammar/tokeniser.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..527cd40 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1127,7 +1127,7 @@ class Addition(ArithmaticOperator):
 
 
 class BitwiseOperation(Expression):
-    OPERATORS = ("&", "|", "^", "||", "<<", ">>", "#")
+    OPERATORS = ("&", "|", "^", "||", "&&", "<<", ">>", "#")
 
     def __init__(self, expression, predicate, right_hand):
         super().__init__(expression)
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 029acd1..1dd192e 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -14,12 +14,16 @@ KEPT_SPLIT_TOKENS = (
     "-",
     "*",
     "/",
+    "!=",
     "=",
     "<",
     ">",
+    "|",
+    "&",
+    "^",
     ".",
 )
-MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
+MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "&&", "!=")
 
 
 def lower(s: Optional[str]) -> Optional[str]:
-- 
2.43.0


From 7e73404855ba08aacf3ca5484c9a424d6ad11f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 04/99] fix: keep what follows the index of a function result

---
 sqlvalidator/grammar/lexer.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6d36880..d736817 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -801,11 +801,19 @@ class ExpressionParser:
             )
             next_token = next(tokens, None)
 
-        while next_token == ".":
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, until_one_of=until_one_of, is_chained_columns=True
-            )
-            expression = ChainedColumns(expression, right_hand)
+        while next_token == "." or next_token == "[":
+            if next_token == ".":
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens, until_one_of=until_one_of, is_chained_columns=True
+                )
+                expression = ChainedColumns(expression, right_hand)
+            else:
+                argument_tokens, next_token = get_tokens_until_one_of(
+                    tokens, stop_words=["]"]
+                )
+                arguments = ExpressionListParser.parse(iter(argument_tokens))
+                expression = Index(expression, arguments)
+                next_token = next(tokens, None)
 
         if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
             left_hand = expression
@@ -817,14 +825,6 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
-        while next_token == "[":
-            argument_tokens, next_token = get_tokens_until_one_of(
-                tokens, stop_words=["]"]
-            )
-            arguments = ExpressionListParser.parse(iter(argument_tokens))
-            expression = Index(expression, arguments)
-            next_token = next(tokens, None)
-
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-- 
2.43.0


From b40c6a5cc58debaf9585783490a6ec798373c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 05/99] fix: keep operands following a bitwise or concatenation
 operation

---
 sqlvalidator/grammar/lexer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index d736817..e05c82c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -825,6 +825,13 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
+        if next_token in BitwiseOperation.OPERATORS and not is_chained_columns:
+            operator = next_token
+            right_hand, next_token = ExpressionParser.parse(
+                tokens, is_right_hand=True, until_one_of=until_one_of
+            )
+            expression = BitwiseOperation(expression, operator, right_hand)
+
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
@@ -867,12 +874,6 @@ class ExpressionParser:
                 right_hand_right,
             )
             expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
-- 
2.43.0


From 25adc19e80456992025d731e09a500be6789e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 06/99] fix: keep NOT LIKE, NOT BETWEEN, NOT CONTAINS and
 chained conditions

---
 sqlvalidator/grammar/lexer.py | 29 ++++++++++-------------------
 sqlvalidator/grammar/sql.py   |  5 ++++-
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e05c82c..85aa454 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -835,7 +835,7 @@ class ExpressionParser:
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-        if lower(next_token) in Condition.PREDICATES:
+        while lower(next_token) in Condition.PREDICATES:
             first_token = None
             symbol = next_token
             if lower(next_token) == "is":
@@ -846,8 +846,8 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in Condition.NEGATABLE_PREDICATES:
+                    symbol = "not " + lower(next_next_token)
                 else:
                     first_token = next_next_token
 
@@ -857,22 +857,13 @@ class ExpressionParser:
                 until_one_of=until_one_of,
                 first_token=first_token,
             )
-            expression = Condition(expression, symbol, right_hand)
-        elif lower(next_token) == "between":
-            symbol = next_token
-            right_hand_left, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            if lower(next_token) != "and":
-                raise ParsingError("expected AND")
-            right_hand_right, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            right_hand = BooleanCondition(
-                "and",
-                right_hand_left,
-                right_hand_right,
-            )
+            if lower(symbol) in Condition.BETWEEN_PREDICATES:
+                if lower(next_token) != "and":
+                    raise ParsingError("expected AND")
+                right_hand_right, next_token = ExpressionParser.parse(
+                    tokens, is_right_hand=True, until_one_of=until_one_of
+                )
+                right_hand = BooleanCondition("and", right_hand, right_hand_right)
             expression = Condition(expression, symbol, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 527cd40..e9b7196 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1409,7 +1409,10 @@ class Condition(Expression):
         "in",
         "not",
         "contains",
+        "between",
     )
+    NEGATABLE_PREDICATES = ("in", "like", "contains", "between")
+    BETWEEN_PREDICATES = ("between", "not between")
 
     def __init__(self, expression, predicate, right_hand):
         super().__init__(expression)
@@ -1437,7 +1440,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in self.BETWEEN_PREDICATES:
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From 7ad736578c82c7a3706a8b95aad1b31599bf91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 07/99] fix: keep the operand of a unary plus or minus

---
 sqlvalidator/grammar/lexer.py | 20 ++++++++++----------
 sqlvalidator/grammar/sql.py   | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 85aa454..4f7ebe0 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -40,6 +40,7 @@ from sqlvalidator.grammar.sql import (
     String,
     Table,
     Type,
+    UnaryOperator,
     Unnest,
     UsingClause,
     WhereClause,
@@ -576,6 +577,15 @@ class ExpressionParser:
                 until_one_of=until_one_of,
             )
             expression = Negation(rest_expression)
+        elif main_token in UnaryOperator.OPERATORS:
+            operand, next_token = ExpressionParser.parse(
+                tokens, until_one_of=until_one_of, is_chained_columns=True
+            )
+            is_number = type(operand) in (Integer, Float) and operand.value >= 0
+            if main_token == "-" and is_number:
+                expression = type(operand)(-operand.value)
+            else:
+                expression = UnaryOperator(main_token, operand)
         elif main_token == "(":
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
             arguments = ExpressionListParser.parse(iter(argument_tokens))
@@ -734,16 +744,6 @@ class ExpressionParser:
                     Column(main_token), arguments
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
-            elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(-int(next_token))
-                next_token = next(tokens, None)
-            elif (
-                next_token is not None
-                and main_token == "-"
-                and next_token.replace(".", "").isdigit()
-            ):
-                expression = Float(-float(next_token))
-                next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e9b7196..4fde38d 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1126,6 +1126,26 @@ class Addition(ArithmaticOperator):
         super().__init__("+", *args)
 
 
+class UnaryOperator(Expression):
+    OPERATORS = ("-", "+")
+
+    def __init__(self, operator, expression):
+        super().__init__(expression)
+        self.operator = operator
+
+    def __str__(self):
+        operand = transform(self.value)
+        # Two consecutive minuses would start a comment
+        separator = " " if operand.startswith(self.OPERATORS) else ""
+        return "{}{}{}".format(self.operator, separator, operand)
+
+    def __repr__(self):
+        return "<UnaryOperator {} {!r}>".format(self.operator, self.value)
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.operator == other.operator
+
+
 class BitwiseOperation(Expression):
     OPERATORS = ("&", "|", "^", "||", "&&", "<<", ">>", "#")
 
-- 
2.43.0


From 5458e08a7aead2fd0d73b3884363378c56e3ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 08/99] fix: keep numbers as they are written

---
 sqlvalidator/grammar/lexer.py | 6 +++---
 sqlvalidator/grammar/sql.py   | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 4f7ebe0..11ab43e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -581,9 +581,9 @@ class ExpressionParser:
             operand, next_token = ExpressionParser.parse(
                 tokens, until_one_of=until_one_of, is_chained_columns=True
             )
-            is_number = type(operand) in (Integer, Float) and operand.value >= 0
-            if main_token == "-" and is_number:
-                expression = type(operand)(-operand.value)
+            is_number = type(operand) in (Integer, Float)
+            if main_token == "-" and is_number and not str(operand).startswith("-"):
+                expression = type(operand)("-" + str(operand))
             else:
                 expression = UnaryOperator(main_token, operand)
         elif main_token == "(":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4fde38d..836dc41 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -904,9 +904,11 @@ class String(Expression):
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
+        # Kept as it was written, to not alter its precision or notation
+        self.literal = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.literal
 
     @property
     def return_type(self):
@@ -916,9 +918,11 @@ class Integer(Expression):
 class Float(Expression):
     def __init__(self, value):
         super().__init__(float(value))
+        # Kept as it was written, to not alter its precision or notation
+        self.literal = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.literal
 
     @property
     def return_type(self):
-- 
2.43.0


From 53841c3a74996a9edea63a615621afe018bbe2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 09/99] fix: do not rewrite the identifiers yes and no to TRUE
 and FALSE

---
 sqlvalidator/grammar/sql.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 836dc41..6756db2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -944,14 +944,8 @@ class Null(Expression):
 
 
 class Boolean(Expression):
-    TRUE_VALUES = (
-        "true",
-        "yes",
-    )
-    FALSE_VALUES = (
-        "false",
-        "no",
-    )
+    TRUE_VALUES = ("true",)
+    FALSE_VALUES = ("false",)
     BOOLEAN_VALUES = TRUE_VALUES + FALSE_VALUES
 
     def __init__(self, value):
-- 
2.43.0


From 97ac215a9e1493b195832b64c5ee3502d4e7e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 10/99] fix: keep the operands of the modulo operator

---
 sqlvalidator/grammar/lexer.py | 3 ++-
 sqlvalidator/grammar/sql.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 11ab43e..49c2a87 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -815,7 +815,8 @@ class ExpressionParser:
                 expression = Index(expression, arguments)
                 next_token = next(tokens, None)
 
-        if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
+        is_arithmetic = next_token in ArithmaticOperator.OPERATORS
+        if is_arithmetic and not is_chained_columns:
             left_hand = expression
             symbol = next_token
             right_hand, next_token = ExpressionParser.parse(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6756db2..6cd415e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1091,6 +1091,8 @@ class Index(Expression):
 
 
 class ArithmaticOperator(Expression):
+    OPERATORS = ("+", "-", "*", "/", "%")
+
     def __init__(self, operator, *args):
         self.operator = operator
         self.args = args
-- 
2.43.0


From 5169ed508a145ad6e07d0b82f9ee572f1c808492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 11/99] fix: do not split placeholders and numbers in
 scientific notation

---
 sqlvalidator/grammar/tokeniser.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 1dd192e..36542d2 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -23,6 +23,10 @@ KEPT_SPLIT_TOKENS = (
     "^",
     ".",
 )
+# Placeholders and numbers in scientific notation, that contain split tokens
+UNSPLIT_TOKEN_PATTERN = re.compile(
+    r"%\(\w+\)s|(?<![\w.])(?:\d+\.?\d*|\.\d+)e[+-]?\d+(?![\w.])", re.IGNORECASE
+)
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "&&", "!=")
 
 
@@ -211,6 +215,17 @@ def _split_on_kept_token(token: str, value: str):
             yield from split_tokens(elem)
 
 
+def _split_around_unsplit_tokens(value: str):
+    index = 0
+    for unsplit_token in UNSPLIT_TOKEN_PATTERN.finditer(value):
+        if unsplit_token.start() > index:
+            yield from split_tokens(value[index : unsplit_token.start()])
+        yield unsplit_token.group()
+        index = unsplit_token.end()
+    if index < len(value):
+        yield from split_tokens(value[index:])
+
+
 def split_tokens(value: str):
     if any(string_token in value for string_token in STRING_SPLIT_TOKENS):
         yield from _split_on_string_tokens(value)
@@ -221,6 +236,10 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
+    if UNSPLIT_TOKEN_PATTERN.search(value):
+        yield from _split_around_unsplit_tokens(value)
+        return
+
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
             yield from _split_on_kept_token(kept_token, value)
-- 
2.43.0


From c036c69923ca467482e2430b98ed1a4d038c93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 12/99] fix: treat carriage returns, form feeds and vertical
 tabs as whitespace

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 36542d2..2583490 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -2,7 +2,7 @@ import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
-WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t")
+WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t", "\r", "\f", "\v")
 KEPT_SPLIT_TOKENS = (
     ",",
     ";",
-- 
2.43.0


From 511573be66ed93e132dbcd1e412ab2fb36a91793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 13/99] fix: recognise numbers in scientific notation as
 numbers

---
 sqlvalidator/grammar/lexer.py | 4 ++--
 sqlvalidator/grammar/sql.py   | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 49c2a87..0a1d029 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -562,9 +562,9 @@ class ExpressionParser:
 
         if main_token in String.QUOTES:
             expression = StringParser.parse(tokens, main_token)
-        elif main_token.isdigit():
+        elif main_token.isdecimal():
             expression = Integer(main_token)
-        elif main_token.replace(".", "").isdigit():
+        elif Float.PATTERN.fullmatch(main_token):
             expression = Float(main_token)
         elif lower(main_token) in Boolean.BOOLEAN_VALUES:
             expression = Boolean(main_token)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6cd415e..f2b4d9b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Any, List, Optional, Set
 
@@ -916,6 +917,8 @@ class Integer(Expression):
 
 
 class Float(Expression):
+    PATTERN = re.compile(r"(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", re.IGNORECASE)
+
     def __init__(self, value):
         super().__init__(float(value))
         # Kept as it was written, to not alter its precision or notation
-- 
2.43.0


From 23797c2cc4bf2505a59b0b2d6976f83e92f245fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 14/99] fix: keep RESPECT NULLS and LIMIT 0 of ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0a1d029..e282a2b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -642,7 +642,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f2b4d9b..2a5bf25 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -635,7 +635,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 59a6d764a94cbc35a5ab98e14fb621ae72e88c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 15/99] fix: keep UNION DISTINCT and ALL, DISTINCT or EXCEPT of
 the combined queries

---
 sqlvalidator/grammar/lexer.py | 5 ++++-
 sqlvalidator/grammar/sql.py   | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e282a2b..8304c89 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -241,13 +241,16 @@ class FromStatementParser:
         while lower(next_token) in CombinedQueries.SET_OPERATORS:
             left_expr = expression
             expression_tokens, next_token = get_tokens_until_not_in(
-                tokens, CombinedQueries.SET_OPERATORS, first_token=next_token
+                tokens,
+                CombinedQueries.SET_OPERATORS + CombinedQueries.SET_QUANTIFIERS,
+                first_token=next_token,
             )
             set_operator = SetOperatorTypeParser.parse(iter(expression_tokens))
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens,
                 CombinedQueries.SET_OPERATORS,
                 first_token=next_token,
+                keep=[("*", "except")],
             )
             if lower(expression_tokens[0]) == "select":
                 right_expr = SelectStatementParser.parse(iter(expression_tokens[1:]))
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2a5bf25..40373d6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1360,7 +1360,8 @@ class Join(Expression):
 
 
 class CombinedQueries(Expression):
-    SET_OPERATORS = ("union", "intersect", "except", "all")
+    SET_OPERATORS = ("union", "intersect", "except")
+    SET_QUANTIFIERS = ("all", "distinct")
 
     def __init__(self, set_operator, left_query, right_query):
         self.set_operator = set_operator
-- 
2.43.0


From bf48d1ee42f8d2239af8bc13b274dc0523493c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 16/99] fix: keep set operators after WHERE, GROUP BY, HAVING
 or without FROM

---
 sqlvalidator/grammar/lexer.py | 67 +++++++++++++++++++++++++++++++----
 sqlvalidator/grammar/sql.py   |  9 +++++
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 8304c89..458b34c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -73,7 +73,16 @@ class SQLStatementParser:
 
 
 class SelectStatementParser:
-    keywords = (";", "from", "where", "group", "having", "order", "limit", "offset")
+    keywords = (
+        ";",
+        "from",
+        "where",
+        "group",
+        "having",
+        "order",
+        "limit",
+        "offset",
+    ) + CombinedQueries.SET_OPERATORS
 
     @classmethod
     def parse(cls, tokens):
@@ -99,7 +108,10 @@ class SelectStatementParser:
             first_expression_token = next_token
 
         expression_tokens, next_token = get_tokens_until_one_of(
-            tokens, cls.keywords, first_token=first_expression_token
+            tokens,
+            cls.keywords,
+            first_token=first_expression_token,
+            keep=[("*", "except")],
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
 
@@ -127,7 +139,9 @@ class SelectStatementParser:
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after GROUP")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["having", "order", "limit", "offset", ";"]
+                tokens,
+                ("having", "order", "limit", "offset", ";")
+                + CombinedQueries.SET_OPERATORS,
             )
             group_by_clause = GroupByParser.parse(iter(expression_tokens))
             group_by_clause.group_each_by = group_each_by
@@ -139,6 +153,25 @@ class SelectStatementParser:
         else:
             having_clause = None
 
+        set_operations = []
+        while lower(next_token) in CombinedQueries.SET_OPERATORS:
+            operator_tokens, next_token = get_tokens_until_not_in(
+                tokens,
+                CombinedQueries.SET_OPERATORS + CombinedQueries.SET_QUANTIFIERS,
+                first_token=next_token,
+            )
+            set_operator = SetOperatorTypeParser.parse(iter(operator_tokens))
+            if lower(next_token) == "select":
+                combined_query = cls.parse(tokens)
+            elif next_token == "(":
+                query_tokens = get_tokens_until_closing_parenthesis(tokens)
+                query = SQLStatementParser.parse(iter(query_tokens))
+                combined_query = Parenthesis(query)
+            else:
+                raise ParsingError("Missing query after {}".format(set_operator))
+            set_operations.append((set_operator, combined_query))
+            next_token = next(tokens, None)
+
         if lower(next_token) == "order":
             next_token = next(tokens, None)
             if not lower(next_token) == "by":
@@ -165,6 +198,23 @@ class SelectStatementParser:
             offset_clause = None
 
         semi_colon = bool(next_token and next_token == ";")
+
+        if set_operations and isinstance(combined_query, SelectStatement):
+            # What ends the last query applies to the combination of all queries
+            order_by_clause, combined_query.order_by_clause = (
+                combined_query.order_by_clause,
+                None,
+            )
+            limit_clause, combined_query.limit_clause = (
+                combined_query.limit_clause,
+                None,
+            )
+            offset_clause, combined_query.offset_clause = (
+                combined_query.offset_clause,
+                None,
+            )
+            semi_colon, combined_query.semi_colon = combined_query.semi_colon, False
+
         return SelectStatement(
             select_all=select_all,
             select_distinct=select_distinct,
@@ -178,6 +228,7 @@ class SelectStatementParser:
             limit_clause=limit_clause,
             offset_clause=offset_clause,
             semi_colon=semi_colon,
+            set_operations=set_operations,
         )
 
 
@@ -420,7 +471,8 @@ class WhereClauseParser:
         expression, next_token = ExpressionParser.parse(
             tokens,
             can_alias=False,
-            until_one_of=("group", "having", "order", "limit", "offset", ";"),
+            until_one_of=("group", "having", "order", "limit", "offset", ";")
+            + CombinedQueries.SET_OPERATORS,
         )
         return WhereClause(expression), next_token
 
@@ -445,7 +497,10 @@ class HavingClauseParser:
     @staticmethod
     def parse(tokens):
         expression, next_token = ExpressionParser.parse(
-            tokens, can_alias=False, until_one_of=["order", "limit", "offset", ";"]
+            tokens,
+            can_alias=False,
+            until_one_of=("order", "limit", "offset", ";")
+            + CombinedQueries.SET_OPERATORS,
         )
         return HavingClause(expression), next_token
 
@@ -885,7 +940,7 @@ class ExpressionParser:
                 right_alias.expression = expression
                 expression = right_alias
 
-        if lower(next_token) == "except":
+        if lower(next_token) == "except" and "except" not in until_one_of:
             opening_parenthesis = next(tokens, None)
             if opening_parenthesis != "(":
                 raise ParsingError("expected '('")
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 40373d6..db08d27 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -37,6 +37,7 @@ class SelectStatement:
         limit_clause=None,
         offset_clause=None,
         semi_colon=True,
+        set_operations=(),
     ):
         self.expressions = expressions
         self.select_all = select_all
@@ -50,6 +51,8 @@ class SelectStatement:
         self.limit_clause = limit_clause
         self.offset_clause = offset_clause
         self.semi_colon = semi_colon
+        # Queries that are combined with this one, as (set operator, query)
+        self.set_operations = list(set_operations)
 
     def transform(self, is_subquery=False):
         statement_str = "SELECT"
@@ -109,6 +112,9 @@ class SelectStatement:
         if self.having_clause:
             statement_str += "\nHAVING{}".format(transform(self.having_clause))
 
+        for set_operator, query in self.set_operations:
+            statement_str += "\n{}\n{}".format(set_operator, transform(query))
+
         if self.order_by_clause:
             statement_str += "\nORDER BY{}".format(transform(self.order_by_clause))
 
@@ -140,6 +146,8 @@ class SelectStatement:
             errors += self.group_by_clause.validate(known_fields, self.expressions)
         if self.having_clause:
             errors += self.having_clause.validate(known_fields)
+        for _, query in self.set_operations:
+            errors += query.validate(set())
         if self.order_by_clause:
             errors += self.order_by_clause.validate(known_fields, self.expressions)
         if self.limit_clause:
@@ -200,6 +208,7 @@ class SelectStatement:
             and self.limit_clause == other.limit_clause
             and self.offset_clause == other.offset_clause
             and self.semi_colon == other.semi_colon
+            and self.set_operations == other.set_operations
         )
 
     def __repr__(self):
-- 
2.43.0


From 50d80ef535f15110f17f7b06494c3d8095700a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 17/99] fix: format conditions and aliases in GROUP BY, ORDER
 BY, CASE and arithmetic

---
 sqlvalidator/grammar/sql.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index db08d27..3f46423 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -62,7 +62,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -246,7 +246,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
@@ -301,9 +301,9 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
-                "\n", "\n "
-            )
+            group_by_str = "\n{}".format(
+                ",\n".join(map(transform, self.args))
+            ).replace("\n", "\n ")
         else:
             group_by_str = " " + transform(self.args[0])
         if self.rollup:
@@ -418,7 +418,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -462,7 +462,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1111,7 +1111,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1625,7 +1625,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From 5992d8a8017dba27f6b4cfcbe6a6194b1b32a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 18/99] fix: keep what follows a raw string and quoted aliases
 of strings

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 458b34c..5d7f553 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -810,6 +810,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
@@ -965,7 +966,6 @@ class ExpressionParser:
         if (
             next_token is not None
             and next_token != ")"
-            and not (next_token in String.QUOTES and isinstance(expression, String))
             and next_token != ";"
             and lower(next_token) not in until_one_of
             and can_alias
-- 
2.43.0


From 738a949be9929192cda9a031609cb13bb93999da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 19/99] fix: do not indent newlines inside strings

---
 sqlvalidator/grammar/sql.py   | 12 +++++++++++-
 sqlvalidator/sql_formatter.py |  3 ++-
 sqlvalidator/sql_validator.py |  3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3f46423..dfdb99b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -7,12 +7,20 @@ from sqlvalidator.grammar.tokeniser import lower
 DEFAULT_LINE_LENGTH = 88
 
 
+# Stands for a newline inside a string, which should not be indented
+STRING_NEWLINE = "\0"
+
+
 def transform(obj: Any) -> str:
     if hasattr(obj, "transform"):
         return obj.transform()
     return str(obj)
 
 
+def transform_statement(statement: Any) -> str:
+    return transform(statement).replace(STRING_NEWLINE, "\n")
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -898,7 +906,9 @@ class String(Expression):
 
     def __str__(self):
         return "{prefix}{quotes}{value}{quotes}".format(
-            quotes=self.quotes, value=self.value, prefix=self.prefix or ""
+            quotes=self.quotes,
+            value=self.value.replace("\n", STRING_NEWLINE),
+            prefix=self.prefix or "",
         )
 
     def __repr__(self):
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index e4702de..34b4fe6 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,7 @@
 from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.sql import transform_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
 def format_sql(sql_string: str) -> str:
-    return SQLStatementParser.parse(to_tokens(sql_string)).transform()
+    return transform_statement(SQLStatementParser.parse(to_tokens(sql_string)))
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..bb70192 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,6 +1,7 @@
 from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
+from sqlvalidator.grammar.sql import transform_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
@@ -18,7 +19,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return self.sql_query.transform()
+        return transform_statement(self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From f1fc79f9bfb2b681daef5e153d546d8f889af162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 20/99] fix: do not format and validate nested expressions in
 exponential time

---
 sqlvalidator/grammar/sql.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index dfdb99b..93af5d0 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -12,9 +12,13 @@ STRING_NEWLINE = "\0"
 
 
 def transform(obj: Any) -> str:
-    if hasattr(obj, "transform"):
-        return obj.transform()
-    return str(obj)
+    if isinstance(obj, str):
+        return obj
+    # An expression is transformed once, as several layouts can be tried around it
+    if "_transformed" not in vars(obj):
+        has_transform = hasattr(obj, "transform")
+        obj._transformed = obj.transform() if has_transform else str(obj)
+    return obj._transformed
 
 
 def transform_statement(statement: Any) -> str:
@@ -1025,9 +1029,7 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        if hasattr(self.args[0], "known_fields"):
-            return self.args[0].known_fields
-        return set()
+        return getattr(self.args[0], "known_fields", set())
 
     @property
     def return_type(self):
-- 
2.43.0


From 03732c507a5bd807c61be6d0b75428fb7180fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 21/99] fix: validate LIMIT ALL without crashing

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 93af5d0..9923556 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -485,6 +485,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
-- 
2.43.0


From e2d33f3150897e285c54d5ecc151344965e13499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 22/99] fix: validate CAST without crashing

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9923556..0d040af 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -606,6 +606,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-- 
2.43.0


From ae2578d81f22194ec943a35c3b82298505fd6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 23/99] fix: validate integers in the ORDER BY of a window
 without crashing

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0d040af..8169abc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -455,7 +455,8 @@ class OrderByItem(Expression):
         while isinstance(value, Parenthesis):
             value = value.value
 
-        if isinstance(value, Integer):
+        is_position = isinstance(value, Integer) and select_expressions is not None
+        if is_position:
             if value.value <= 0 or value.value > len(select_expressions):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
-- 
2.43.0


From 504d335af80fa1d8fa91ee4040ac0431ea33fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 24/99] fix: validate WITH statements without crashing

---
 sqlvalidator/grammar/sql.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8169abc..3bed6b2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -519,6 +519,9 @@ class WithQuery(Expression):
         # todo: column name, for recursivity
         self.statement = statement
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        return self.statement.validate()
+
     def __str__(self):
         return "{} AS (\n{}\n)".format(
             self.name, self.statement.transform(is_subquery=True)
@@ -538,6 +541,16 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.validate(set())
+        return errors + self.select_statement.validate(known_fields)
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def transform(self):
         return "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
-- 
2.43.0


From 6855598456296cbcd421a4133aae078b75fca8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 25/99] fix: validate subqueries used as a condition without
 crashing

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3bed6b2..80b8ad8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -168,6 +168,13 @@ class SelectStatement:
             errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def return_type(self):
+        return object
+
+    def resolve_return_type(self, known_fields):
+        return self.return_type
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
-- 
2.43.0


From f839139ba5e67bf59568595ff2db0be24447449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 26/99] fix: compare the names of columns and aliases without
 their quotes and case

---
 sqlvalidator/grammar/sql.py | 81 ++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 80b8ad8..e436738 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -34,6 +34,24 @@ class _FieldInfo:
         return hash(self.name)
 
 
+def _alias_name(alias) -> str:
+    return lower(alias if isinstance(alias, str) else alias.value)
+
+
+def _column_name(expression) -> Optional[str]:
+    """
+    The name of the column that an expression refers to, None if it is no column.
+    """
+    if isinstance(expression, ChainedColumns):
+        names = [_column_name(column) for column in expression.columns]
+        return ".".join(names) if all(names) else None
+    if isinstance(expression, Column):
+        return lower(expression.value)
+    if isinstance(expression, String) and expression.quotes != "'":
+        return lower(expression.value)
+    return None
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -179,13 +197,10 @@ class SelectStatement:
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
         for e in self.expressions:
-            if isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, e.return_type))
+            if isinstance(e, (Column, String)) and _column_name(e):
+                fields.add(_FieldInfo(_column_name(e), e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
-                else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
+                fields.add(_FieldInfo(_alias_name(e.alias), e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -281,7 +296,7 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
+        matching_fields = [f for f in known_fields if f.name == _column_name(self)]
         if matching_fields:
             return matching_fields[0].type
         return self.return_type
@@ -357,17 +372,23 @@ class GroupByClause(Expression):
             elif (
                 isinstance(arg, (Column, String))
                 and (
-                    not any(f.name == arg.value for f in known_fields)
-                    and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                    not any(f.name == lower(arg.value) for f in known_fields)
+                    and lower(arg.value)
+                    not in [
+                        _alias_name(e.alias)
+                        for e in select_expressions
+                        if isinstance(e, Alias)
+                    ]
                 )
                 and not any(f.name == "*" for f in known_fields)
             ):
                 fields_without_alias = [
-                    f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
+                    f
+                    for f in known_fields
+                    if f.name.split(".", 1)[-1] == lower(arg.value)
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
@@ -834,12 +855,14 @@ class Column(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         if (
-            not any(f.name == self.value for f in known_fields)
+            not any(f.name == _column_name(self) for f in known_fields)
             and self.value != "*"
             and not any(f.name == "*" for f in known_fields)
         ):
             fields_without_alias = [
-                f for f in known_fields if f.name.split(".", 1)[-1] == self.value
+                f
+                for f in known_fields
+                if f.name.split(".", 1)[-1] == _column_name(self)
             ]
             if len(fields_without_alias) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
@@ -871,12 +894,13 @@ class ChainedColumns(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = str(self)
         alias = ".".join(map(transform, self.columns[:-1]))
         last_value = self.columns[-1]
+        full_name = _column_name(self)
+        wildcard_name = ".".join(map(str, map(_column_name, self.columns[:-1]))) + ".*"
         if (
-            not any(f.name == full_value for f in known_fields)
-            and not any(f.name == f"{alias}.*" for f in known_fields)
+            not any(f.name == full_name for f in known_fields)
+            and not any(f.name == wildcard_name for f in known_fields)
         ) and not any(f.name == "*" for f in known_fields):
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
@@ -1119,7 +1143,7 @@ class Alias(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo("{}.{}".format(transform(self.alias), f.name), f.type)
+            _FieldInfo("{}.{}".format(_alias_name(self.alias), f.name), f.type)
             for f in self.expression.known_fields
         }
 
@@ -1384,25 +1408,8 @@ class Join(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
-        if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
-            for field in self.left_from.expression.known_fields:
-                known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
-        else:
-            known_fields |= self.left_from.known_fields
-
-        if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
-            for field in self.right_from.expression.known_fields:
-                known_fields.add(
-                    _FieldInfo(
-                        right_alias + "." + field.name,
-                        field.type,
-                    )
-                )
-        else:
-            known_fields |= self.right_from.known_fields
-
+        known_fields |= self.left_from.known_fields
+        known_fields |= self.right_from.known_fields
         return known_fields
 
 
-- 
2.43.0


From ed89215502825dbb0cd559832fcf86b3c628772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:08 +0000
Subject: [PATCH 27/99] fix: apply the clauses after a set operator to the
 query that they follow

---
 sqlvalidator/grammar/lexer.py | 14 ++++++++------
 sqlvalidator/grammar/sql.py   |  6 +++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 5d7f553..5f8d906 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -118,7 +118,8 @@ class SelectStatementParser:
         if lower(next_token) == "from":
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens,
-                ["where", "group", "having", "order", "limit", "offset", ";"],
+                ("where", "group", "having", "order", "limit", "offset", ";")
+                + CombinedQueries.SET_OPERATORS,
                 keep=[("with", "offset")],
             )
             from_statement = FromStatementParser.parse(iter(expression_tokens))
@@ -163,14 +164,15 @@ class SelectStatementParser:
             set_operator = SetOperatorTypeParser.parse(iter(operator_tokens))
             if lower(next_token) == "select":
                 combined_query = cls.parse(tokens)
-            elif next_token == "(":
-                query_tokens = get_tokens_until_closing_parenthesis(tokens)
-                query = SQLStatementParser.parse(iter(query_tokens))
-                combined_query = Parenthesis(query)
+                next_token = next(tokens, None)
+            elif next_token is not None and lower(next_token) not in cls.keywords:
+                query_tokens, next_token = get_tokens_until_one_of(
+                    tokens, cls.keywords, first_token=next_token
+                )
+                combined_query = FromStatementParser.parse(iter(query_tokens))
             else:
                 raise ParsingError("Missing query after {}".format(set_operator))
             set_operations.append((set_operator, combined_query))
-            next_token = next(tokens, None)
 
         if lower(next_token) == "order":
             next_token = next(tokens, None)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e436738..a6d4346 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -143,7 +143,11 @@ class SelectStatement:
             statement_str += "\nHAVING{}".format(transform(self.having_clause))
 
         for set_operator, query in self.set_operations:
-            statement_str += "\n{}\n{}".format(set_operator, transform(query))
+            statement_str += "\n{}{}{}".format(
+                set_operator,
+                " " if isinstance(query, Table) else "\n",
+                transform(query),
+            )
 
         if self.order_by_clause:
             statement_str += "\nORDER BY{}".format(transform(self.order_by_clause))
-- 
2.43.0


From a21a81777213b12ea56a1f894578b3b22f0aabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 28/99] fix: find columns that an aliased table or SELECT * can
 contain

---
 sqlvalidator/grammar/sql.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a6d4346..81be729 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -52,6 +52,14 @@ def _column_name(expression) -> Optional[str]:
     return None
 
 
+def _is_wildcard(name: str) -> bool:
+    return name == "*" or name.endswith(".*")
+
+
+def _without_alias(name: str) -> str:
+    return name.rsplit(".", 1)[-1]
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -389,11 +397,13 @@ class GroupByClause(Expression):
                 fields_without_alias = [
                     f
                     for f in known_fields
-                    if f.name.split(".", 1)[-1] == lower(arg.value)
+                    if _without_alias(f.name) == lower(arg.value)
                 ]
                 if len(fields_without_alias) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
-                elif len(fields_without_alias) == 0:
+                elif len(fields_without_alias) == 0 and not any(
+                    _is_wildcard(f.name) for f in known_fields
+                ):
                     errors.append('column "{}" does not exist'.format(arg.value))
 
         return errors
@@ -866,11 +876,13 @@ class Column(Expression):
             fields_without_alias = [
                 f
                 for f in known_fields
-                if f.name.split(".", 1)[-1] == _column_name(self)
+                if _without_alias(f.name) == _column_name(self)
             ]
             if len(fields_without_alias) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
-            elif len(fields_without_alias) == 0:
+            elif len(fields_without_alias) == 0 and not any(
+                _is_wildcard(f.name) for f in known_fields
+            ):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
-- 
2.43.0


From c2bd978a8042bc19de4da3061266f9f0670a67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 29/99] fix: find columns that a subquery selects with an alias
 or EXCEPT and REPLACE

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 81be729..d8b7e89 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -209,8 +209,11 @@ class SelectStatement:
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
         for e in self.expressions:
-            if isinstance(e, (Column, String)) and _column_name(e):
-                fields.add(_FieldInfo(_column_name(e), e.return_type))
+            while isinstance(e, SelectAllClause):
+                e = e.value
+            column_name = _column_name(e)
+            if column_name:
+                fields.add(_FieldInfo(_without_alias(column_name), e.return_type))
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(_alias_name(e.alias), e.return_type))
 
-- 
2.43.0


From f1424074787555337267bc428910c91aaeca4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 30/99] fix: find the columns of structs and all columns of an
 alias

---
 sqlvalidator/grammar/sql.py | 46 ++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d8b7e89..eba4598 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -911,16 +911,50 @@ class ChainedColumns(Expression):
     def return_type(self):
         return self.columns[-1].return_type
 
+    def _leading_names(self) -> List[str]:
+        names = []
+        for column in self.columns:
+            if isinstance(column, ChainedColumns):
+                column_names = column._leading_names()
+                is_name = len(column_names) == len(column.columns)
+            else:
+                is_name = _column_name(column) is not None
+                # The fields of what is accessed by an index are unknown
+                indexed = column.value if isinstance(column, Index) else column
+                name = _column_name(indexed)
+                column_names = [] if name is None else [name]
+            names += column_names
+            if not is_name:
+                break
+        return names
+
+    @staticmethod
+    def _is_known(names: List[str], known_names: Set[str]) -> bool:
+        if "*" in known_names:
+            return True
+        if names[-1] == "*":
+            prefix = ".".join(names[:-1]) + "."
+            if any(name.startswith(prefix) for name in known_names):
+                return True
+            names = names[:-1]
+        # Every column can be a struct, whose fields are unknown
+        prefixes = [".".join(names[:i]) for i in range(1, len(names) + 1)]
+        if any(p in known_names or p + ".*" in known_names for p in prefixes):
+            return True
+        is_alias = any(name.startswith(names[0] + ".") for name in known_names)
+        return not is_alias and any(
+            _is_wildcard(name) or _without_alias(name) == names[0]
+            for name in known_names
+        )
+
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        names = self._leading_names()
+        if len(names) < 2:
+            return errors + self.columns[0].validate(known_fields)
         alias = ".".join(map(transform, self.columns[:-1]))
         last_value = self.columns[-1]
-        full_name = _column_name(self)
-        wildcard_name = ".".join(map(str, map(_column_name, self.columns[:-1]))) + ".*"
-        if (
-            not any(f.name == full_name for f in known_fields)
-            and not any(f.name == wildcard_name for f in known_fields)
-        ) and not any(f.name == "*" for f in known_fields):
+        if not self._is_known(names, {f.name for f in known_fields}):
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
 
-- 
2.43.0


From b87f06c6753e581bbec6a9717e6b827d2b861cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 31/99] fix: do not depend on the order of a set to know the
 type of a column

---
 sqlvalidator/grammar/sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index eba4598..4253b56 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -311,9 +311,9 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == _column_name(self)]
-        if matching_fields:
-            return matching_fields[0].type
+        types = {f.type for f in known_fields if f.name == _column_name(self)}
+        if types:
+            return types.pop() if len(types) == 1 else object
         return self.return_type
 
 
-- 
2.43.0


From 803834ebc307bf97e7e5feae8d7b6c1458cfcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 32/99] fix: allow quoted columns as boolean conditions

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4253b56..6d7ed9b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1025,7 +1025,8 @@ class String(Expression):
 
     @property
     def return_type(self):
-        return str
+        # Other quotes can be those of a column
+        return str if self.quotes == "'" else object
 
 
 class Integer(Expression):
-- 
2.43.0


From 9010915d7084906e3b9c228b9868f24d83b5da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 33/99] fix: allow positions of columns selected by a star

---
 sqlvalidator/grammar/sql.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6d7ed9b..5d72295 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -60,6 +60,15 @@ def _without_alias(name: str) -> str:
     return name.rsplit(".", 1)[-1]
 
 
+def _is_position(value: int, select_expressions) -> bool:
+    # The number of columns that a star stands for is unknown
+    has_star = any(
+        isinstance(e, SelectAllClause) or (_column_name(e) or "").endswith("*")
+        for e in select_expressions
+    )
+    return value > 0 and (has_star or value <= len(select_expressions))
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -378,8 +387,8 @@ class GroupByClause(Expression):
         for arg in self.args:
             while isinstance(arg, Parenthesis):
                 arg = arg.args[0]
-            if isinstance(arg, Integer) and (
-                arg.value <= 0 or arg.value > len(select_expressions)
+            if isinstance(arg, Integer) and not _is_position(
+                arg.value, select_expressions
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
@@ -502,7 +511,7 @@ class OrderByItem(Expression):
 
         is_position = isinstance(value, Integer) and select_expressions is not None
         if is_position:
-            if value.value <= 0 or value.value > len(select_expressions):
+            if not _is_position(value.value, select_expressions):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-- 
2.43.0


From 8380c4a8a832154139124dadc208b364ab574a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 34/99] fix: find aliases of selected expressions in ORDER BY

---
 sqlvalidator/grammar/sql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5d72295..4158181 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -516,7 +516,12 @@ class OrderByItem(Expression):
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
         else:
-            errors += self.value.validate(known_fields)
+            aliases = {
+                _FieldInfo(_alias_name(e.alias), e.return_type)
+                for e in select_expressions or ()
+                if isinstance(e, Alias)
+            }
+            errors += self.value.validate(known_fields | aliases)
         return errors
 
 
-- 
2.43.0


From 5e96a457fb86987b50b84104e1cd40a920704a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 35/99] fix: validate joined subqueries and find the columns of
 UNNEST and USING

---
 sqlvalidator/grammar/sql.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4158181..94c930b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1350,6 +1350,10 @@ class Unnest(Expression):
             and self.offset_alias == other.offset_alias
         )
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
 
 class Join(Expression):
     VALUES = ("join", "inner", "left", "right", "full", "cross", "outer", ",", "each")
@@ -1471,6 +1475,8 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
+        errors += self.left_from.validate(known_fields)
+        errors += self.right_from.validate(known_fields)
         return errors
 
     @property
@@ -1478,6 +1484,15 @@ class Join(Expression):
         known_fields = set()
         known_fields |= self.left_from.known_fields
         known_fields |= self.right_from.known_fields
+        if isinstance(self.using, UsingClause) and isinstance(
+            self.using.value, Parenthesis
+        ):
+            # Both sides have these columns, but they are merged into one
+            known_fields |= {
+                _FieldInfo(_column_name(column), object)
+                for column in self.using.value.args
+                if _column_name(column)
+            }
         return known_fields
 
 
@@ -1520,6 +1535,16 @@ class CombinedQueries(Expression):
             self.right_query,
         )
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.left_query.validate(known_fields)
+        errors += self.right_query.validate(known_fields)
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.left_query.known_fields
+
 
 class OnClause(Expression):
     def __str__(self):
-- 
2.43.0


From a98945fb3ea2a3ffa86685c36435aab4850fd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 36/99] fix: prefer columns of a subquery over those of the
 outer query

---
 sqlvalidator/grammar/sql.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 94c930b..8dd45c5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -183,9 +183,20 @@ class SelectStatement:
 
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
-        known_fields = known_fields or set()
+        outer_fields = known_fields or set()
+        known_fields = set(outer_fields)
         if hasattr(self.from_statement, "known_fields"):
-            known_fields = known_fields | self.from_statement.known_fields
+            own_fields = self.from_statement.known_fields
+            known_fields |= own_fields
+            if outer_fields:
+                # Columns of this query take precedence over those of outer queries
+                own_names = [_without_alias(f.name) for f in own_fields]
+                known_fields |= {
+                    _FieldInfo(_without_alias(f.name), f.type)
+                    for f in own_fields
+                    if own_names.count(_without_alias(f.name)) == 1
+                    and not _is_wildcard(f.name)
+                }
 
         for e in self.expressions:
             errors += e.validate(known_fields)
-- 
2.43.0


From 1f925035bc728b5085ced5f4bfced9331b8fcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 37/99] fix: do not mistake placeholders, date parts and
 current_date for columns

---
 sqlvalidator/grammar/sql.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8dd45c5..4d22af7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -561,6 +561,8 @@ class LimitClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
+        if isinstance(value, Column) and value.is_placeholder:
+            return errors
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -575,6 +577,8 @@ class OffsetClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
+        if isinstance(value, Column) and value.is_placeholder:
+            return errors
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
@@ -637,6 +641,8 @@ class WithStatement(Expression):
 
 
 class FunctionCall(Expression):
+    DATE_PARTS = ("millisecond", "isoweek", "isoyear", "dayofyear", "time")
+
     def __init__(self, function_name, *args):
         self.function_name = function_name
         self.args = args
@@ -662,7 +668,12 @@ class FunctionCall(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         for a in self.args:
-            errors += a.validate(known_fields)
+            is_date_part = (
+                isinstance(a, Column)
+                and lower(a.value) in DatePartExtraction.PARTS + self.DATE_PARTS
+            )
+            if not is_date_part:
+                errors += a.validate(known_fields)
         return errors
 
     def __repr__(self):
@@ -888,6 +899,26 @@ class Column(Expression):
         "saturday",
         "sunday",
     )
+    # What is written like a column, but does not need to be one
+    NILADIC_FUNCTIONS = (
+        "current_catalog",
+        "current_date",
+        "current_datetime",
+        "current_role",
+        "current_schema",
+        "current_time",
+        "current_timestamp",
+        "current_user",
+        "localtime",
+        "localtimestamp",
+        "session_user",
+        "user",
+    )
+    PLACEHOLDER = re.compile(r"%s|%\(\w+\)s|\?|[:@$]\w+|\{\w*\}")
+
+    @property
+    def is_placeholder(self) -> bool:
+        return bool(self.PLACEHOLDER.fullmatch(self.value))
 
     def __str__(self):
         if self.value in self.KEYWORDS:
@@ -900,6 +931,8 @@ class Column(Expression):
             not any(f.name == _column_name(self) for f in known_fields)
             and self.value != "*"
             and not any(f.name == "*" for f in known_fields)
+            and lower(self.value) not in self.KEYWORDS + self.NILADIC_FUNCTIONS
+            and not self.is_placeholder
         ):
             fields_without_alias = [
                 f
-- 
2.43.0


From c130c5c19518c41379baa9f4ca26593b5e77c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 38/99] fix: keep what follows NATURAL JOIN, which needs
 neither ON nor USING

---
 sqlvalidator/grammar/lexer.py |  2 +-
 sqlvalidator/grammar/sql.py   | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 5f8d906..e07b6ee 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -333,7 +333,7 @@ class FromStatementParser:
             )
             join_type = JoinTypeParser.parse(iter(expression_tokens))
 
-            if join_type in ("CROSS JOIN", ","):
+            if Join.is_unconstrained(join_type):
                 expression_tokens, next_token = [next_token] + list(tokens), None
             else:
                 expression_tokens, next_token = get_tokens_until_one_of(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4d22af7..03ace55 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1400,7 +1400,24 @@ class Unnest(Expression):
 
 
 class Join(Expression):
-    VALUES = ("join", "inner", "left", "right", "full", "cross", "outer", ",", "each")
+    VALUES = (
+        "join",
+        "inner",
+        "left",
+        "right",
+        "full",
+        "cross",
+        "natural",
+        "outer",
+        ",",
+        "each",
+    )
+    # Join types that have neither ON nor USING
+    UNCONSTRAINED = ("CROSS", "NATURAL", ",")
+
+    @classmethod
+    def is_unconstrained(cls, join_type: str) -> bool:
+        return join_type.split(" ", 1)[0] in cls.UNCONSTRAINED
 
     def __init__(self, join_type, left_from, right_from, on, using):
         self.join_type = join_type
@@ -1517,7 +1534,7 @@ class Join(Expression):
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
-        if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
+        if not self.is_unconstrained(self.join_type) and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
         errors += self.left_from.validate(known_fields)
         errors += self.right_from.validate(known_fields)
@@ -1525,9 +1542,16 @@ class Join(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        known_fields = set()
-        known_fields |= self.left_from.known_fields
-        known_fields |= self.right_from.known_fields
+        left_fields = self.left_from.known_fields
+        right_fields = self.right_from.known_fields
+        known_fields = left_fields | right_fields
+        if self.join_type.startswith("NATURAL"):
+            right_names = {_without_alias(f.name) for f in right_fields}
+            known_fields |= {
+                _FieldInfo(_without_alias(f.name), object)
+                for f in left_fields
+                if not _is_wildcard(f.name) and _without_alias(f.name) in right_names
+            }
         if isinstance(self.using, UsingClause) and isinstance(
             self.using.value, Parenthesis
         ):
-- 
2.43.0


From f4f8ff85ecbb2837e404cb1d0a719ec42ce64fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 39/99] fix: format WITH inside WITH without crashing

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 03ace55..98803e3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -625,11 +625,14 @@ class WithStatement(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         return self.select_statement.known_fields
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 051a0e18ed940632b0727689201b00a40aed40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 40/99] fix: report SQL that cannot be parsed as invalid
 instead of crashing

---
 sqlvalidator/grammar/lexer.py | 17 ++++++++++++++---
 sqlvalidator/sql_formatter.py |  5 ++---
 sqlvalidator/sql_validator.py |  7 +++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e07b6ee..e86b6ba 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -53,6 +53,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_not_in,
     get_tokens_until_one_of,
     lower,
+    to_tokens,
     track_quote,
 )
 
@@ -61,6 +62,16 @@ class ParsingError(Exception):
     pass
 
 
+def parse_statement(sql: str):
+    try:
+        return SQLStatementParser.parse(to_tokens(sql))
+    except (ParsingError, RecursionError):
+        raise
+    except Exception as ex:
+        # The tokens are not those that were expected
+        raise ParsingError("Could not parse the query") from ex
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -69,7 +80,7 @@ class SQLStatementParser:
             return SelectStatementParser.parse(tokens)
         if lower(next_token) == "with":
             return WithStatementParser.parse(tokens)
-        raise ParsingError
+        raise ParsingError("Only SELECT statements are supported")
 
 
 class SelectStatementParser:
@@ -240,9 +251,9 @@ class FromStatementParser:
         next_token = next(tokens)
         if next_token == "(":
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
-            try:
+            if argument_tokens and lower(argument_tokens[0]) in ("select", "with"):
                 argument = SQLStatementParser.parse(iter(argument_tokens))
-            except ParsingError:
+            else:
                 argument = FromStatementParser.parse(iter(argument_tokens))
             expression = Parenthesis(argument)
             next_token = next(tokens, None)
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index 34b4fe6..d4a9d3d 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,7 +1,6 @@
-from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.lexer import parse_statement
 from sqlvalidator.grammar.sql import transform_statement
-from sqlvalidator.grammar.tokeniser import to_tokens
 
 
 def format_sql(sql_string: str) -> str:
-    return transform_statement(SQLStatementParser.parse(to_tokens(sql_string)))
+    return transform_statement(parse_statement(sql_string))
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index bb70192..ed37dfb 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,8 +1,7 @@
 from typing import List
 
-from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
+from sqlvalidator.grammar.lexer import ParsingError, parse_statement
 from sqlvalidator.grammar.sql import transform_statement
-from sqlvalidator.grammar.tokeniser import to_tokens
 
 
 class SQLQuery:
@@ -15,7 +14,7 @@ class SQLQuery:
     @property
     def sql_query(self):
         if self._sql_query is None:
-            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
+            self._sql_query = parse_statement(self.sql)
         return self._sql_query
 
     def format(self) -> str:
@@ -27,11 +26,11 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
             self.errors.append(str(ex))
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From 16835584c1f2e7c2583760b52be64fd2512e1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 41/99] fix: refuse to format queries when elements of it would
 be lost

---
 sqlvalidator/sql_formatter.py | 42 +++++++++++++++++++++++++++++++++--
 sqlvalidator/sql_validator.py |  4 ++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index d4a9d3d..424d5fe 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,44 @@
-from sqlvalidator.grammar.lexer import parse_statement
+from typing import List
+
+from sqlvalidator.grammar.lexer import (
+    ParsingError,
+    SelectStatementParser,
+    parse_statement,
+)
 from sqlvalidator.grammar.sql import transform_statement
+from sqlvalidator.grammar.tokeniser import lower, to_tokens, track_quote
 
 
 def format_sql(sql_string: str) -> str:
-    return transform_statement(parse_statement(sql_string))
+    return format_statement(sql_string, parse_statement(sql_string))
+
+
+def format_statement(sql_string: str, statement) -> str:
+    """
+    Format the parsed `statement` of `sql_string`.
+    A query with elements that are not supported is not formatted, so that none is lost.
+    """
+    formatted_sql = transform_statement(statement)
+    if _comparable_tokens(formatted_sql) != _comparable_tokens(sql_string):
+        raise ParsingError("Some elements of the query are not supported")
+    return formatted_sql
+
+
+def _comparable_tokens(sql_string: str) -> List[str]:
+    comparable_tokens: List[str] = []
+    quote = None
+    for token in to_tokens(sql_string):
+        if quote is None:
+            token = lower(token) or ""
+            # Trailing commas are removed
+            if (
+                comparable_tokens
+                and comparable_tokens[-1] == ","
+                and token in SelectStatementParser.keywords + (")", "]")
+            ):
+                comparable_tokens.pop()
+        quote = track_quote(token, quote)
+        comparable_tokens.append(token)
+    if comparable_tokens[-1:] == [","]:
+        comparable_tokens.pop()
+    return comparable_tokens
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index ed37dfb..4302dc5 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,7 +1,7 @@
 from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, parse_statement
-from sqlvalidator.grammar.sql import transform_statement
+from sqlvalidator.sql_formatter import format_statement
 
 
 class SQLQuery:
@@ -18,7 +18,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return transform_statement(self.sql_query)
+        return format_statement(self.sql, self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From 3e6ac9d0a8e878c89ec7e15f6c85b5049730c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 42/99] fix: ignore comments in validation and refuse to format
 them

---
 sqlvalidator/grammar/lexer.py     |  3 ++-
 sqlvalidator/grammar/tokeniser.py | 30 +++++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e86b6ba..7b351cc 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -55,6 +55,7 @@ from sqlvalidator.grammar.tokeniser import (
     lower,
     to_tokens,
     track_quote,
+    without_comments,
 )
 
 
@@ -64,7 +65,7 @@ class ParsingError(Exception):
 
 def parse_statement(sql: str):
     try:
-        return SQLStatementParser.parse(to_tokens(sql))
+        return SQLStatementParser.parse(without_comments(to_tokens(sql)))
     except (ParsingError, RecursionError):
         raise
     except Exception as ex:
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 2583490..a91933c 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -23,6 +23,8 @@ KEPT_SPLIT_TOKENS = (
     "^",
     ".",
 )
+STRING_OR_COMMENT_START_PATTERN = re.compile(r"['\"`]|--|/\*")
+COMMENT_PATTERN = re.compile(r"--[^\n]*|/\*.*?(?:\*/|\Z)", re.DOTALL)
 # Placeholders and numbers in scientific notation, that contain split tokens
 UNSPLIT_TOKEN_PATTERN = re.compile(
     r"%\(\w+\)s|(?<![\w.])(?:\d+\.?\d*|\.\d+)e[+-]?\d+(?![\w.])", re.IGNORECASE
@@ -34,6 +36,10 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def is_comment(token: str) -> bool:
+    return bool(COMMENT_PATTERN.fullmatch(token))
+
+
 def track_quote(token: Optional[str], quote: Optional[str]) -> Optional[str]:
     """
     Given the quote of the string that is open before `token` (if any),
@@ -184,19 +190,25 @@ def _find_closing_quote(value: str, quote: str, start: int) -> int:
     return len(value)
 
 
-def _split_on_string_tokens(value: str):
-    string_start = re.search("|".join(STRING_SPLIT_TOKENS), value)
+def _split_on_strings_and_comments(value: str):
+    string_start = STRING_OR_COMMENT_START_PATTERN.search(value)
     while string_start:
         quote = string_start.group()
         if string_start.start():
             yield from split_tokens(value[: string_start.start()])
+        if quote not in STRING_SPLIT_TOKENS:
+            comment = COMMENT_PATTERN.match(value, string_start.start())
+            yield comment.group()
+            value = value[comment.end() :]
+            string_start = STRING_OR_COMMENT_START_PATTERN.search(value)
+            continue
         yield quote
         closing_index = _find_closing_quote(value, quote, string_start.end())
         if closing_index > string_start.end():
             yield value[string_start.end() : closing_index]
         yield from value[closing_index : closing_index + 1]
         value = value[closing_index + 1 :]
-        string_start = re.search("|".join(STRING_SPLIT_TOKENS), value)
+        string_start = STRING_OR_COMMENT_START_PATTERN.search(value)
     if value:
         yield from split_tokens(value)
 
@@ -227,8 +239,8 @@ def _split_around_unsplit_tokens(value: str):
 
 
 def split_tokens(value: str):
-    if any(string_token in value for string_token in STRING_SPLIT_TOKENS):
-        yield from _split_on_string_tokens(value)
+    if STRING_OR_COMMENT_START_PATTERN.search(value):
+        yield from _split_on_strings_and_comments(value)
         return
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
@@ -251,3 +263,11 @@ def split_tokens(value: str):
 def to_tokens(value: str):
     tokens = split_tokens(value)
     yield from merge_stream(tokens, MERGE_TOKENS)
+
+
+def without_comments(tokens):
+    quote = None
+    for token in tokens:
+        if quote is not None or not is_comment(token):
+            yield token
+        quote = track_quote(token, quote)
-- 
2.43.0


From 314a31dbec2d7b681c45737ea8352a98129f4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 43/99] fix: do not split operators that are not supported

---
 sqlvalidator/grammar/tokeniser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index a91933c..68a6cc1 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,9 +25,11 @@ KEPT_SPLIT_TOKENS = (
 )
 STRING_OR_COMMENT_START_PATTERN = re.compile(r"['\"`]|--|/\*")
 COMMENT_PATTERN = re.compile(r"--[^\n]*|/\*.*?(?:\*/|\Z)", re.DOTALL)
-# Placeholders and numbers in scientific notation, that contain split tokens
+# Placeholders, numbers in scientific notation and operators that contain split tokens
 UNSPLIT_TOKEN_PATTERN = re.compile(
-    r"%\(\w+\)s|(?<![\w.])(?:\d+\.?\d*|\.\d+)e[+-]?\d+(?![\w.])", re.IGNORECASE
+    r"%\(\w+\)s|(?<![\w.])(?:\d+\.?\d*|\.\d+)e[+-]?\d+(?![\w.])"
+    r"|<=>|<->|->>?|=>|==|:=|#>>?|@>|<@(?=\s)|!?~\*|\*\*",
+    re.IGNORECASE,
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "&&", "!=")
 
-- 
2.43.0


From 4367ed99bd31f8a9d27a426d867b7742255ef707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 44/99] fix: parse CAST to types of several words or with
 parameters

---
 sqlvalidator/grammar/lexer.py | 7 +++----
 sqlvalidator/grammar/sql.py   | 6 ++++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 7b351cc..6e3d377 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -698,11 +698,10 @@ class ExpressionParser:
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-                    next_token = next(tokens)
-                    cast_type = Type(next_token)
+                    type_tokens = get_tokens_until_closing_parenthesis(tokens)
+                    assert type_tokens, "Missing type"
+                    cast_type = Type.from_tokens(type_tokens)
                     expression = CastFunctionCall(column, cast_type)
-                    next_token = next(tokens)
-                    assert lower(next_token) == ")", next_token
                 elif lower(main_token) == "array_agg":
                     next_token = next(tokens)
                     if lower(next_token) == "distinct":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 98803e3..da111e7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1023,6 +1023,12 @@ class ChainedColumns(Expression):
 class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
 
+    @classmethod
+    def from_tokens(cls, tokens: List[str]):
+        # Types can have several words and parameters
+        value = re.sub(r" ?([(<\[]) ?", r"\1", " ".join(tokens))
+        return cls(re.sub(r" ([)>\],])", r"\1", value))
+
     def __str__(self):
         return self.value.upper()
 
-- 
2.43.0


From 42d3ec35a9751825025b416ac4ab1034542f6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 45/99] fix: keep a comma that ends a query, as it can be
 followed by an appended string

---
 sqlvalidator/sql_formatter.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index 424d5fe..0d7868a 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -39,6 +39,4 @@ def _comparable_tokens(sql_string: str) -> List[str]:
                 comparable_tokens.pop()
         quote = track_quote(token, quote)
         comparable_tokens.append(token)
-    if comparable_tokens[-1:] == [","]:
-        comparable_tokens.pop()
     return comparable_tokens
-- 
2.43.0


From a1ee2da6073486884bce87a2e679c6f7223f8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 46/99] fix: do not lose the content, encoding or links of
 files that are rewritten

---
 sqlvalidator/file_handler.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..62f27d6 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,5 +1,7 @@
 import os
+import shutil
 import sys
+import tempfile
 import tokenize
 from typing import IO, List, Optional, Set, Tuple
 
@@ -186,12 +188,14 @@ def analyse_file(
     verbose_validate: bool,
     seen_files: Set[str],
 ) -> InputSQLAnalyseInfo:
-    abs_filename = os.path.abspath(filename)
+    abs_filename = os.path.realpath(filename)
     if abs_filename in seen_files:
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r") as file:
+    with open(filename, "rb") as binary_file:
+        encoding, _ = tokenize.detect_encoding(binary_file.readline)
+    with open(filename, "r", encoding=encoding) as file:
         (
             count_changed_sql,
             new_content,
@@ -205,8 +209,7 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
-                f.write(new_content)
+            write_file(abs_filename, new_content, encoding)
             starting_text = "reformatted"
         elif check:
             starting_text = "would reformat"
@@ -236,6 +239,25 @@ def analyse_file(
     )
 
 
+def write_file(filename: str, content: str, encoding: str) -> None:
+    """
+    Replace the file at once, to not lose its content if it cannot be written.
+    """
+    if not os.access(filename, os.W_OK):
+        raise PermissionError("file is not writable")
+    file_descriptor, temporary_filename = tempfile.mkstemp(
+        suffix=".tmp", dir=os.path.dirname(filename)
+    )
+    try:
+        with open(file_descriptor, "w", encoding=encoding) as file:
+            file.write(content)
+        shutil.copymode(filename, temporary_filename)
+        os.replace(temporary_filename, filename)
+    except BaseException:
+        os.unlink(temporary_filename)
+        raise
+
+
 def compute_file_content(
     file: IO, should_format: bool, should_validate: bool
 ) -> Tuple[int, str, int, list]:
-- 
2.43.0


From 49bf7b027a73e64ee61a679fdf00eeb7b10c6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 47/99] fix: change nothing else than SQL in files, and report
 SQL that cannot be parsed

---
 sqlvalidator/file_handler.py  | 266 +++++++++++++---------------------
 sqlvalidator/sql_formatter.py |   6 +-
 2 files changed, 105 insertions(+), 167 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 62f27d6..65391ee 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,46 +1,21 @@
+import ast
 import os
+import re
 import shutil
 import sys
 import tempfile
 import tokenize
+import warnings
+from io import StringIO
 from typing import IO, List, Optional, Set, Tuple
 
-from . import sql_validator
+from . import sql_formatter, sql_validator
+from .grammar.lexer import ParsingError
 
 NO_SQLFORMAT_COMMENT = "nosqlformat"
 NO_SQLVALIDATION_COMMENT = "nosqlvalidation"
 
-POSSIBLE_QUOTES = ('"""', "'''", '"', "'")
-STRING_PREFIXES = (
-    "r",
-    "u",
-    "ur",
-    "R",
-    "U",
-    "UR",
-    "Ur",
-    "uR",
-    "f",
-    "F",
-    "fr",
-    "Fr",
-    "fR",
-    "FR",
-    "rf",
-    "rF",
-    "Rf",
-    "RF",
-    "b",
-    "B",
-    "br",
-    "Br",
-    "bR",
-    "BR",
-    "rb",
-    "rB",
-    "Rb",
-    "RB",
-)
+STRING_PATTERN = re.compile(r"(\w*)(\"{3}|\'{3}|\"|\')(.*)\2", re.DOTALL)
 
 
 class InputSQLAnalyseInfo:
@@ -195,7 +170,7 @@ def analyse_file(
 
     with open(filename, "rb") as binary_file:
         encoding, _ = tokenize.detect_encoding(binary_file.readline)
-    with open(filename, "r", encoding=encoding) as file:
+    with open(filename, "r", encoding=encoding, newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -249,7 +224,7 @@ def write_file(filename: str, content: str, encoding: str) -> None:
         suffix=".tmp", dir=os.path.dirname(filename)
     )
     try:
-        with open(file_descriptor, "w", encoding=encoding) as file:
+        with open(file_descriptor, "w", encoding=encoding, newline="") as file:
             file.write(content)
         shutil.copymode(filename, temporary_filename)
         os.replace(temporary_filename, filename)
@@ -264,156 +239,115 @@ def compute_file_content(
     count_changed_sql = 0
     count_has_errors = 0
     errors_locations = []
-    tokens = []
-
-    def handle_string_token(
-        token_generator, token_type, token_value, starting, ending, line
-    ):
-        nonlocal tokens
-        nonlocal count_changed_sql
-        nonlocal count_has_errors
-        nonlocal errors_locations
-
-        if not is_select_string(token_value):
-            tokens.append((token_type, token_value, starting, ending, line))
-            return
-
-        following_tokens = []
-        # Find if the next comment without a string in-between if there is one
-        next_token, next_token_value, next_starting, next_ending, next_line = next(
-            token_generator, (None, None, None, None, None)
-        )
-        if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            tokens.append((token_type, formatted_sql, starting, ending, line))
-            tokens += following_tokens
-            if formatted_sql != token_value:
+    replacements = []
+
+    content = file.read()
+    readline = StringIO(StringIO(content, newline=None).read()).readline
+    tokens = list(tokenize.generate_tokens(readline))
+    for index, token in enumerate(tokens):
+        if token.type != tokenize.STRING or not is_select_string(token.string):
+            continue
+
+        comment = get_following_comment(tokens, index)
+        if should_format and NO_SQLFORMAT_COMMENT not in comment:
+            formatted_sql = format_sql_string(token.string)
+            if formatted_sql != token.string:
+                replacements.append((token.start, token.end, formatted_sql))
                 count_changed_sql += 1
+        if should_validate and NO_SQLVALIDATION_COMMENT not in comment:
+            sql_query = sql_validator.SQLQuery(get_sql(token.string))
             if not sql_query.is_valid():
                 count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-            return
+                errors_locations.append((token.start[0], sql_query.errors))
 
-        following_tokens.append(
-            (next_token, next_token_value, next_starting, next_ending, next_line)
-        )
-        while (
-            next_token
-            and next_token != tokenize.COMMENT
-            and next_token != tokenize.STRING
-        ):
-            next_token, next_token_value, next_starting, next_ending, next_line = next(
-                token_generator, (None, None, None, None, None)
-            )
-            if next_token is None:
-                tokens.append((token_type, token_value, starting, ending, line))
-                tokens += following_tokens
-                return
-            following_tokens.append(
-                (next_token, next_token_value, next_starting, next_ending, next_line)
-            )
+    new_content = replace_in_content(content, replacements)
+    return count_changed_sql, new_content, count_has_errors, errors_locations
 
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
-        if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
-            ):
-                tokens.append((token_type, formatted_sql, starting, ending, line))
-                count_changed_sql += 1
-            else:
-                tokens.append((token_type, token_value, starting, ending, line))
-            if needs_validate and not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-        if next_token == tokenize.STRING:
-            tokens += following_tokens[:-1]
-            handle_string_token(
-                token_generator,
-                next_token,
-                next_token_value,
-                next_starting,
-                next_ending,
-                next_line,
-            )
-        else:
-            tokens += following_tokens
-
-    token_generator = tokenize.generate_tokens(file.readline)
-    for token_type, token_value, starting, ending, line in token_generator:
-        if token_type == tokenize.STRING:
-            handle_string_token(
-                token_generator, token_type, token_value, starting, ending, line
-            )
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
 
-    formatted_file_content = tokenize.untokenize(tokens)
-    return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
+def replace_in_content(content: str, replacements: list) -> str:
+    """
+    Replace the texts between the given (row, column) positions.
+    """
+    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", content)
+    line_offsets = [0]
+    for line in lines:
+        line_offsets.append(line_offsets[-1] + len(line))
+    newline = re.search(r"\r\n|\r|\n", content)
+
+    new_content = ""
+    offset = 0
+    for (start_row, start_column), (end_row, end_column), text in replacements:
+        new_content += content[offset : line_offsets[start_row - 1] + start_column]
+        new_content += text.replace("\n", newline.group() if newline else "\n")
+        offset = line_offsets[end_row - 1] + end_column
+    return new_content + content[offset:]
+
+
+def get_following_comment(tokens: list, index: int) -> str:
+    """
+    Find the next comment without a string in-between, empty if there is none.
+    """
+    for token in tokens[index + 1 :]:
+        if token.type == tokenize.COMMENT:
+            return token.string
+        if token.type == tokenize.STRING:
+            break
+    return ""
 
 
-def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
+def split_quotes(sql_string: str) -> Tuple[str, str, str]:
     """
-    Read a SQL string as input, potentially with quotes or not,
-    and analyse it in order to get the formatter content and know if it is valid.
+    Split a string token into its prefix, its quotes and its content.
     """
-    quotes = None
-    quotes_prefix = None
-
-    for possible_quote in POSSIBLE_QUOTES:
-        if sql_string.startswith(possible_quote) and sql_string.endswith(
-            possible_quote
-        ):
-            quotes = possible_quote
-            break
+    string_match = STRING_PATTERN.fullmatch(sql_string)
+    assert string_match is not None, "Could not find quotes"
+    prefix, quotes, content = string_match.groups()
+    return prefix, quotes, content
 
-    if quotes is None:
-        for possible_quote in POSSIBLE_QUOTES:
-            for prefix in STRING_PREFIXES:
-                if sql_string.startswith(
-                    prefix + possible_quote
-                ) and sql_string.endswith(possible_quote):
-                    quotes = possible_quote
-                    quotes_prefix = prefix
-                    break
-            if quotes_prefix is not None:
-                break
 
-    assert quotes is not None, "Could not find quotes"
+def get_sql(sql_string: str) -> str:
+    """
+    The SQL that a string token stands for.
+    """
+    try:
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            value = ast.literal_eval(sql_string)
+    except (SyntaxError, ValueError):
+        # Not a constant, as f-strings for instance
+        return split_quotes(sql_string)[2]
+    return value.decode("latin-1") if isinstance(value, bytes) else value
 
-    if quotes_prefix is not None:
-        sql_string = sql_string[len(quotes_prefix) :]
-    sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
 
-    sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
-    formatted_sql = sql_query.format()
+def format_sql_string(sql_string: str) -> str:
+    """
+    Format the SQL of a string token.
+    The token is left as it is when its SQL cannot be formatted.
+    """
+    prefix, quotes, content = split_quotes(sql_string)
+    try:
+        formatted_sql = sql_formatter.format_sql(content)
+    except ParsingError:
+        return sql_string
 
-    if len(quotes) == 1 and "\n" in formatted_sql:
+    with_newlines = "\n" in formatted_sql
+    if with_newlines and len(quotes) == 1:
         # Need to change to triple quotes
-        if quotes == "'":
-            new_quotes = "'''"
-        else:
-            new_quotes = '"""'
-    else:
-        new_quotes = quotes
+        quotes *= 3
+    if len(quotes) == 3 and (with_newlines or formatted_sql.endswith(quotes[0])):
+        formatted_sql = "\n{}\n".format(formatted_sql)
 
-    if len(new_quotes) == 3 and "\n" in formatted_sql:
-        quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
-    else:
-        quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
+    formatted_sql_string = "".join((prefix, quotes, formatted_sql, quotes))
+    try:
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            ast.parse(formatted_sql_string)
+        is_same_sql = sql_formatter.have_same_tokens(
+            get_sql(sql_string), get_sql(formatted_sql_string)
         )
-    return quoted_sql, sql_query
+    except SyntaxError:
+        is_same_sql = False
+    return formatted_sql_string if is_same_sql else sql_string
 
 
 def is_select_string(token_value: str) -> bool:
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index 0d7868a..a231ff7 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -19,11 +19,15 @@ def format_statement(sql_string: str, statement) -> str:
     A query with elements that are not supported is not formatted, so that none is lost.
     """
     formatted_sql = transform_statement(statement)
-    if _comparable_tokens(formatted_sql) != _comparable_tokens(sql_string):
+    if not have_same_tokens(sql_string, formatted_sql):
         raise ParsingError("Some elements of the query are not supported")
     return formatted_sql
 
 
+def have_same_tokens(sql_string: str, other_sql_string: str) -> bool:
+    return _comparable_tokens(sql_string) == _comparable_tokens(other_sql_string)
+
+
 def _comparable_tokens(sql_string: str) -> List[str]:
     comparable_tokens: List[str] = []
     quote = None
-- 
2.43.0


From 69e1d7aa15d0b3bfaf61bc874431396c2e2712d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 48/99] fix: recognise SQL strings by their first word only

---
 sqlvalidator/file_handler.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 65391ee..cef618d 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -351,11 +351,7 @@ def format_sql_string(sql_string: str) -> str:
 
 
 def is_select_string(token_value: str) -> bool:
-    cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
-    lines = cleaned_value.splitlines()
-    if not lines:
-        return False
-    return lines[0].split(" ", maxsplit=1)[0] == "select"
+    return bool(re.match(r"select(\s|$)", get_sql(token_value).lstrip().lower()))
 
 
 def print_format_summary(num_changed_files: int, changed_sql: int, check: bool):
-- 
2.43.0


From 7b13e1930574f909d5274a690505c3ea465aa444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 49/99] fix: do not format or validate parts of concatenated
 strings

---
 sqlvalidator/file_handler.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index cef618d..1fedee4 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -245,7 +245,11 @@ def compute_file_content(
     readline = StringIO(StringIO(content, newline=None).read()).readline
     tokens = list(tokenize.generate_tokens(readline))
     for index, token in enumerate(tokens):
-        if token.type != tokenize.STRING or not is_select_string(token.string):
+        if (
+            token.type != tokenize.STRING
+            or not is_select_string(token.string)
+            or is_concatenated(tokens, index)
+        ):
             continue
 
         comment = get_following_comment(tokens, index)
@@ -295,6 +299,30 @@ def get_following_comment(tokens: list, index: int) -> str:
     return ""
 
 
+def is_concatenated(tokens: list, index: int) -> bool:
+    """
+    A string that is concatenated with another one is only a part of the SQL.
+    """
+
+    def is_part(token) -> bool:
+        return (
+            token.type == tokenize.STRING
+            or tokenize.tok_name[token.type].startswith("FSTRING")
+            or (token.type == tokenize.OP and token.string == "+")
+        )
+
+    ignored_types = (tokenize.NL, tokenize.COMMENT)
+    previous_token = index - 1
+    while previous_token >= 0 and tokens[previous_token].type in ignored_types:
+        previous_token -= 1
+    next_token = index + 1
+    while next_token < len(tokens) and tokens[next_token].type in ignored_types:
+        next_token += 1
+    return (previous_token >= 0 and is_part(tokens[previous_token])) or (
+        next_token < len(tokens) and is_part(tokens[next_token])
+    )
+
+
 def split_quotes(sql_string: str) -> Tuple[str, str, str]:
     """
     Split a string token into its prefix, its quotes and its content.
-- 
2.43.0


From 3c5e4124f66d933e681a9897bd2e732af7c7a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 50/99] fix: validate empty parentheses without crashing

---
 sqlvalidator/grammar/sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index da111e7..59a1524 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -397,7 +397,7 @@ class GroupByClause(Expression):
         errors = super().validate(known_fields)
         for arg in self.args:
             while isinstance(arg, Parenthesis):
-                arg = arg.args[0]
+                arg = arg.value
             if isinstance(arg, Integer) and not _is_position(
                 arg.value, select_expressions
             ):
@@ -1188,6 +1188,8 @@ class Parenthesis(Expression):
 
     @property
     def value(self):
+        if not self.args:
+            return Null()
         if isinstance(self.args[0], Parenthesis):
             return self.args[0].value
         return self.args[0]
@@ -1200,12 +1202,11 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        return getattr(self.args[0], "known_fields", set())
+        return getattr(self.value, "known_fields", set())
 
     @property
     def return_type(self):
-        for a in self.args:
-            return a.return_type
+        return self.value.return_type
 
 
 class Array(Expression):
-- 
2.43.0


From 18ea59d4b89ee002c463a8321de3db426487c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 51/99] fix: merge operators that follow another operator

---
 sqlvalidator/grammar/tokeniser.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 68a6cc1..0f3d1dc 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -152,26 +152,21 @@ def split_with_escaping(s: str, sep: str):
 
 
 def merge_stream(s, goals):
+    previous = None
     for element in s:
-        matching_goals = [g for g in goals if g.startswith(element)]
-        if not matching_goals:
-            yield element
-            continue
-        next_element = next(s, None)
-        if not next_element:
-            yield element
+        if previous is not None and (previous + element) in goals:
+            yield previous + element
+            previous = None
             continue
-
-        twice_matching_goals = [
-            g for g in matching_goals if (element + next_element) == g
-        ]
-        if len(twice_matching_goals) > 1:
-            raise ValueError("Should not reach here")
-        elif twice_matching_goals:
-            yield twice_matching_goals[0]
+        if previous is not None:
+            yield previous
+            previous = None
+        if any(g.startswith(element) for g in goals):
+            previous = element
         else:
             yield element
-            yield next_element
+    if previous is not None:
+        yield previous
 
 
 def _find_closing_quote(value: str, quote: str, start: int) -> int:
-- 
2.43.0


From f033ea66b6e6e3d14ce595b03d59f8c5a14cc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 52/99] fix: do not crash or change the meaning of EXCEPT
 without columns

---
 sqlvalidator/grammar/sql.py   | 4 ++--
 sqlvalidator/sql_formatter.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 59a1524..677e9fd 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1797,8 +1797,8 @@ class SelectAllClause(Expression):
         except_str = "{} {} (".format(transform(self.value), self.KEYWORD)
         if len(self.args) > 1:
             except_str += "\n {}\n".format(",\n ".join(map(transform, self.args)))
-        elif except_str:
-            except_str += transform(self.args[0])
+        else:
+            except_str += "".join(map(transform, self.args))
         return except_str + ")"
 
 
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index a231ff7..4778dc5 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -39,6 +39,8 @@ def _comparable_tokens(sql_string: str) -> List[str]:
                 comparable_tokens
                 and comparable_tokens[-1] == ","
                 and token in SelectStatementParser.keywords + (")", "]")
+                # SELECT *, EXCEPT would become SELECT * EXCEPT
+                and token != "except"
             ):
                 comparable_tokens.pop()
         quote = track_quote(token, quote)
-- 
2.43.0


From d9d13c1e52715eb74b53e5ac57c6f18e8034c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 53/99] fix: do not parse closing parentheses and brackets as
 columns

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6e3d377..fc48758 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -824,6 +824,8 @@ class ExpressionParser:
                     tokens, start_quote=next_token, prefix=main_token
                 )
                 next_token = next(tokens, None)
+            elif main_token in (")", "]"):
+                raise ParsingError("unexpected '{}'".format(main_token))
             else:
                 expression = Column(main_token)
 
-- 
2.43.0


From 0fcfadf6a41f914ce479c5756da1992e3dca6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 54/99] fix: keep the commas of subqueries in expressions

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index fc48758..e461b36 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -606,6 +606,8 @@ class ExpressionListParser:
                 and count_parenthesis == 0
                 and count_square_brackets == 0
                 and quote is None
+                # The commas of a subquery separate its own expressions
+                and lower(expression_tokens[0]) != "select"
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
-- 
2.43.0


From fba4b2d68b9afd9946f7c50f37be8370360437b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 55/99] fix: keep all the values of parentheses over several
 lines

---
 sqlvalidator/grammar/sql.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 677e9fd..689be52 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -337,10 +337,14 @@ class Expression:
         return self.return_type
 
 
+def has_single_argument(expression) -> bool:
+    return isinstance(expression, Parenthesis) and len(expression.args) == 1
+
+
 class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if has_single_argument(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -435,7 +439,7 @@ class GroupByClause(Expression):
 class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if has_single_argument(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1627,7 +1631,7 @@ class CombinedQueries(Expression):
 class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if has_single_argument(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1637,7 +1641,7 @@ class OnClause(Expression):
 class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if has_single_argument(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1719,7 +1723,7 @@ class BooleanCondition(Expression):
         for a in self.args:
             if isinstance(a, BooleanCondition):
                 transformed_a = a.transform(with_newline=True)
-            elif isinstance(a, Parenthesis):
+            elif has_single_argument(a):
                 transformed_a = transform(a.args[0])
                 if "\n" in transformed_a:
                     transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
@@ -1832,7 +1836,7 @@ class Case(Expression):
         for when, then in self.when_then:
             when_then_str = "WHEN"
             transformed_when = transform(when)
-            if isinstance(when, Parenthesis) and "\n" in transformed_when:
+            if has_single_argument(when) and "\n" in transformed_when:
                 when_then_str += (
                     " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
                 )
-- 
2.43.0


From 5405e1fd37a00cd2ba7bc05b2c7a4d041151a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 56/99] fix: report a GROUP BY ROLLUP without expressions

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e461b36..86beaff 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -504,6 +504,8 @@ class GroupByParser:
             tokens, [], first_token=next_token
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
+        if not expressions:
+            raise ParsingError("Missing expression after GROUP BY")
         return GroupByClause(*expressions, rollup=rollup)
 
 
-- 
2.43.0


From c6f53f1984bba76f22129874aebda1dbe90e7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:44 +0000
Subject: [PATCH 57/99] fix: do not repeat errors when a query is validated by
 two threads

---
 sqlvalidator/sql_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 4302dc5..1060441 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -29,7 +29,7 @@ class SQLQuery:
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
-            self.errors.append(str(ex))
+            self.errors = [str(ex)]
         self.validated = True
 
 
-- 
2.43.0


From 66d3cc80712ec365c0f2d88c0234523b42eee746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 58/99] fix: know the columns of stars over aliased subqueries
 and joins

---
 sqlvalidator/grammar/sql.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 689be52..ea5567f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -228,26 +228,30 @@ class SelectStatement:
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
+        from_fields = getattr(self.from_statement, "known_fields", set())
         for e in self.expressions:
+            excluded_names = set()
             while isinstance(e, SelectAllClause):
+                if isinstance(e, ExceptClause):
+                    excluded_names |= set(map(_column_name, e.args))
                 e = e.value
             column_name = _column_name(e)
-            if column_name:
+            if column_name and _is_wildcard(column_name):
+                star_fields = {
+                    f for f in from_fields if f.name.startswith(column_name[:-1])
+                }
+                if not star_fields or any(_is_wildcard(f.name) for f in star_fields):
+                    fields.add(_FieldInfo("*", object))
+                    continue
+                star_fields = {
+                    _FieldInfo(_without_alias(f.name), f.type) for f in star_fields
+                }
+                fields |= {f for f in star_fields if f.name not in excluded_names}
+            elif column_name:
                 fields.add(_FieldInfo(_without_alias(column_name), e.return_type))
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(_alias_name(e.alias), e.return_type))
 
-        if self.from_statement:
-            if isinstance(self.from_statement, Parenthesis) and isinstance(
-                self.from_statement.args[0], SelectStatement
-            ):
-                subquery_known_fields = self.from_statement.args[0].known_fields
-                if any(f.name == "*" for f in fields) and not any(
-                    f.name == "*" for f in subquery_known_fields
-                ):
-                    fields = {f for f in fields if f.name != "*"}
-                    fields |= subquery_known_fields
-
         return fields
 
     def __eq__(self, other):
-- 
2.43.0


From 53a0202adfebf83b9b4c35d23dc215d4ba5bbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 59/99] fix: report the missing columns of operands, cases,
 arrays and indices

---
 sqlvalidator/grammar/sql.py | 48 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ea5567f..7a4d0d2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -925,6 +925,8 @@ class Column(Expression):
         "session_user",
         "user",
     )
+    # Start of literals
+    LITERALS = ("array", "interval")
     PLACEHOLDER = re.compile(r"%s|%\(\w+\)s|\?|[:@$]\w+|\{\w*\}")
 
     @property
@@ -942,7 +944,8 @@ class Column(Expression):
             not any(f.name == _column_name(self) for f in known_fields)
             and self.value != "*"
             and not any(f.name == "*" for f in known_fields)
-            and lower(self.value) not in self.KEYWORDS + self.NILADIC_FUNCTIONS
+            and lower(self.value)
+            not in self.KEYWORDS + self.NILADIC_FUNCTIONS + self.LITERALS
             and not self.is_placeholder
         ):
             fields_without_alias = [
@@ -1234,6 +1237,12 @@ class Array(Expression):
             and all(a == o for a, o in zip(self.args, other.args))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for a in self.args:
+            errors += a.validate(known_fields)
+        return errors
+
 
 class Alias(Expression):
     def __init__(self, expression, alias, with_as):
@@ -1293,6 +1302,13 @@ class Index(Expression):
             self.value, ", ".join(map(repr, self.indices))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        for a in self.indices:
+            errors += a.validate(known_fields)
+        return errors
+
 
 class ArithmaticOperator(Expression):
     OPERATORS = ("+", "-", "*", "/", "%")
@@ -1318,6 +1334,12 @@ class ArithmaticOperator(Expression):
             and all(a == o for a, o in zip(self.args, other.args))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for a in self.args:
+            errors += a.validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
         if any(isinstance(a, float) for a in self.args):
@@ -1349,6 +1371,11 @@ class UnaryOperator(Expression):
     def __eq__(self, other):
         return super().__eq__(other) and self.operator == other.operator
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        return errors
+
 
 class BitwiseOperation(Expression):
     OPERATORS = ("&", "|", "^", "||", "&&", "<<", ">>", "#")
@@ -1368,6 +1395,12 @@ class BitwiseOperation(Expression):
             self.value, self.predicate, self.right_hand
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        errors += self.right_hand.validate(known_fields)
+        return errors
+
 
 class Table(Expression):
     def __init__(self, value, in_square_brackets=False):
@@ -1784,6 +1817,11 @@ class Negation(Expression):
             negation += " "
         return negation + transform(self.value)
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
         return bool
@@ -1858,3 +1896,11 @@ class Case(Expression):
             case_str += "\n ELSE {}".format(transform(self.else_expression))
         case_str += "\nEND"
         return case_str
+
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        expressions = [e for when_then in self.when_then for e in when_then]
+        for expression in (self.value, *expressions, self.else_expression):
+            if expression is not None:
+                errors += expression.validate(known_fields)
+        return errors
-- 
2.43.0


From 10053360688392a818cc226edc5ca91872261d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 60/99] fix: know the names of columns that are cast or
 parenthesised

---
 sqlvalidator/grammar/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7a4d0d2..285db96 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -46,7 +46,10 @@ def _column_name(expression) -> Optional[str]:
         names = [_column_name(column) for column in expression.columns]
         return ".".join(names) if all(names) else None
     if isinstance(expression, Column):
-        return lower(expression.value)
+        # A cast keeps the name
+        return lower(expression.value.split("::", 1)[0])
+    if has_single_argument(expression):
+        return _column_name(expression.args[0])
     if isinstance(expression, String) and expression.quotes != "'":
         return lower(expression.value)
     return None
-- 
2.43.0


From c0dbcd5c3e50817335b20fa88d2b040c95728597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 61/99] fix: report the missing columns of all GROUP BY
 expressions

---
 sqlvalidator/grammar/sql.py | 55 +++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 285db96..ef9bb18 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -63,6 +63,14 @@ def _without_alias(name: str) -> str:
     return name.rsplit(".", 1)[-1]
 
 
+def _alias_fields(select_expressions) -> Set[_FieldInfo]:
+    return {
+        _FieldInfo(_alias_name(e.alias), e.return_type)
+        for e in select_expressions
+        if isinstance(e, Alias)
+    }
+
+
 def _is_position(value: int, select_expressions) -> bool:
     # The number of columns that a star stands for is unknown
     has_star = any(
@@ -407,31 +415,27 @@ class GroupByClause(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         for arg in self.args:
-            while isinstance(arg, Parenthesis):
-                arg = arg.value
-            if isinstance(arg, Integer) and not _is_position(
-                arg.value, select_expressions
-            ):
+            errors += self._validate_argument(arg, known_fields, select_expressions)
+        return errors
+
+    def _validate_argument(self, arg, known_fields, select_expressions):
+        errors = []
+        aliases = _alias_fields(select_expressions)
+        if isinstance(arg, Parenthesis):
+            for a in arg.args:
+                errors += self._validate_argument(a, known_fields, select_expressions)
+        elif isinstance(arg, Integer):
+            if not _is_position(arg.value, select_expressions):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
                 )
-            elif (
-                isinstance(arg, (Column, String))
-                and (
-                    not any(f.name == lower(arg.value) for f in known_fields)
-                    and lower(arg.value)
-                    not in [
-                        _alias_name(e.alias)
-                        for e in select_expressions
-                        if isinstance(e, Alias)
-                    ]
-                )
-                and not any(f.name == "*" for f in known_fields)
-            ):
+        elif isinstance(arg, Column) and not arg.validate(known_fields | aliases):
+            pass
+        elif isinstance(arg, (Column, String)):
+            name = lower(arg.value.split("::", 1)[0])
+            if not any(f.name in (name, "*") for f in known_fields | aliases):
                 fields_without_alias = [
-                    f
-                    for f in known_fields
-                    if _without_alias(f.name) == lower(arg.value)
+                    f for f in known_fields if _without_alias(f.name) == name
                 ]
                 if len(fields_without_alias) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
@@ -439,7 +443,8 @@ class GroupByClause(Expression):
                     _is_wildcard(f.name) for f in known_fields
                 ):
                     errors.append('column "{}" does not exist'.format(arg.value))
-
+        elif not isinstance(arg, Alias):
+            errors += arg.validate(known_fields | aliases)
         return errors
 
 
@@ -538,11 +543,7 @@ class OrderByItem(Expression):
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
         else:
-            aliases = {
-                _FieldInfo(_alias_name(e.alias), e.return_type)
-                for e in select_expressions or ()
-                if isinstance(e, Alias)
-            }
+            aliases = _alias_fields(select_expressions or ())
             errors += self.value.validate(known_fields | aliases)
         return errors
 
-- 
2.43.0


From 56c34e29c926ab595487345ab3d3a5cfaa551d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 62/99] fix: resolve the types of columns through parentheses,
 aliases and subqueries

---
 sqlvalidator/grammar/sql.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ef9bb18..18bbded 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -55,6 +55,12 @@ def _column_name(expression) -> Optional[str]:
     return None
 
 
+def _is_cast(column) -> bool:
+    if isinstance(column, ChainedColumns):
+        return _is_cast(column.columns[-1])
+    return isinstance(column, Column) and "::" in column.value
+
+
 def _is_wildcard(name: str) -> bool:
     return name == "*" or name.endswith(".*")
 
@@ -258,10 +264,9 @@ class SelectStatement:
                     _FieldInfo(_without_alias(f.name), f.type) for f in star_fields
                 }
                 fields |= {f for f in star_fields if f.name not in excluded_names}
-            elif column_name:
-                fields.add(_FieldInfo(_without_alias(column_name), e.return_type))
-            elif isinstance(e, Alias):
-                fields.add(_FieldInfo(_alias_name(e.alias), e.return_type))
+            elif column_name or isinstance(e, Alias):
+                name = _without_alias(column_name or _alias_name(e.alias))
+                fields.add(_FieldInfo(name, e.resolve_return_type(from_fields)))
 
         return fields
 
@@ -346,9 +351,15 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        types = {f.type for f in known_fields if f.name == _column_name(self)}
-        if types:
-            return types.pop() if len(types) == 1 else object
+        if isinstance(self, (Column, ChainedColumns, String)):
+            name = _column_name(self)
+            fields = [f for f in known_fields if f.name == name]
+            if not fields and not any(_is_wildcard(f.name) for f in known_fields):
+                fields = [f for f in known_fields if _without_alias(f.name) == name]
+            types = {f.type for f in fields}
+            if types:
+                is_known = len(types) == 1 and not _is_cast(self)
+                return types.pop() if is_known else object
         return self.return_type
 
 
@@ -1223,6 +1234,11 @@ class Parenthesis(Expression):
     def return_type(self):
         return self.value.return_type
 
+    def resolve_return_type(self, known_fields):
+        if has_single_argument(self):
+            return self.args[0].resolve_return_type(known_fields)
+        return self.return_type
+
 
 class Array(Expression):
     def __init__(self, *args):
@@ -1283,6 +1299,9 @@ class Alias(Expression):
     def return_type(self):
         return self.expression.return_type
 
+    def resolve_return_type(self, known_fields):
+        return self.expression.resolve_return_type(known_fields)
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-- 
2.43.0


From 0c41aa7a6e8f5ef6dd7313625a8da34e7ea9241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 63/99] fix: accept NULL as a boolean

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 18bbded..5060fd3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1163,7 +1163,8 @@ class Null(Expression):
 
     @property
     def return_type(self):
-        return type(None)
+        # NULL is a value of every type
+        return object
 
 
 class Boolean(Expression):
-- 
2.43.0


From 9cad8efb959205ac02ecb20b1f94a9c01e2457a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 64/99] fix: report missing columns in ARRAY_AGG, EXTRACT and
 between backquotes

---
 sqlvalidator/grammar/sql.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5060fd3..28e789f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -787,6 +787,12 @@ class ArrayAggFunctionCall(FunctionCall):
 
         return array_agg_str + ")"
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if self.order_bys:
+            errors += self.order_bys.validate(known_fields, None)
+        return errors
+
 
 class FilteredFunctionCall(Expression):
     def __init__(self, function_call: FunctionCall, filter_condition):
@@ -1094,6 +1100,11 @@ class DatePartExtraction(Expression):
     def __str__(self):
         return "{} FROM {}".format(self.part.upper(), transform(self.value))
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        return errors
+
 
 class String(Expression):
     QUOTES = ("'", '"', "`")
@@ -1116,6 +1127,12 @@ class String(Expression):
             self.__class__.__name__, self.value, self.quotes, self.prefix
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if self.quotes == "`":
+            errors += Column(self.value).validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
         # Other quotes can be those of a column
-- 
2.43.0


From b777b66ef7a5030d822840adaaf1660105dbe94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 65/99] fix: know the columns of stars over merged columns and
 REPLACE

---
 sqlvalidator/grammar/sql.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 28e789f..68c38d1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -69,9 +69,9 @@ def _without_alias(name: str) -> str:
     return name.rsplit(".", 1)[-1]
 
 
-def _alias_fields(select_expressions) -> Set[_FieldInfo]:
+def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo]:
     return {
-        _FieldInfo(_alias_name(e.alias), e.return_type)
+        _FieldInfo(_alias_name(e.alias), e.resolve_return_type(from_fields))
         for e in select_expressions
         if isinstance(e, Alias)
     }
@@ -249,7 +249,11 @@ class SelectStatement:
         for e in self.expressions:
             excluded_names = set()
             while isinstance(e, SelectAllClause):
-                if isinstance(e, ExceptClause):
+                if isinstance(e, ReplaceClause):
+                    replacements = _alias_fields(e.args, from_fields)
+                    fields |= replacements
+                    excluded_names |= {f.name for f in replacements}
+                else:
                     excluded_names |= set(map(_column_name, e.args))
                 e = e.value
             column_name = _column_name(e)
@@ -260,10 +264,15 @@ class SelectStatement:
                 if not star_fields or any(_is_wildcard(f.name) for f in star_fields):
                     fields.add(_FieldInfo("*", object))
                     continue
-                star_fields = {
-                    _FieldInfo(_without_alias(f.name), f.type) for f in star_fields
+                # Columns with the same name have been merged by the join
+                types = {}
+                for f in star_fields:
+                    types.setdefault(_without_alias(f.name), set()).add(f.type)
+                fields |= {
+                    _FieldInfo(name, next(iter(t)) if len(t) == 1 else object)
+                    for name, t in types.items()
+                    if name not in excluded_names
                 }
-                fields |= {f for f in star_fields if f.name not in excluded_names}
             elif column_name or isinstance(e, Alias):
                 name = _without_alias(column_name or _alias_name(e.alias))
                 fields.add(_FieldInfo(name, e.resolve_return_type(from_fields)))
-- 
2.43.0


From 00729fb555540e54b5db96e2479da27f4aff467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 66/99] fix: an alias hides the same alias of outer queries

---
 sqlvalidator/grammar/sql.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 68c38d1..fc69c1f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -69,6 +69,10 @@ def _without_alias(name: str) -> str:
     return name.rsplit(".", 1)[-1]
 
 
+def _field_alias(name: str) -> str:
+    return name.rpartition(".")[0]
+
+
 def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo]:
     return {
         _FieldInfo(_alias_name(e.alias), e.resolve_return_type(from_fields))
@@ -204,8 +208,15 @@ class SelectStatement:
         known_fields = set(outer_fields)
         if hasattr(self.from_statement, "known_fields"):
             own_fields = self.from_statement.known_fields
-            known_fields |= own_fields
             if outer_fields:
+                # An alias of this query hides the same alias of outer queries
+                own_aliases = {_field_alias(f.name) for f in own_fields}
+                known_fields = {
+                    _FieldInfo(_without_alias(f.name), f.type)
+                    if _field_alias(f.name) in own_aliases
+                    else f
+                    for f in outer_fields
+                }
                 # Columns of this query take precedence over those of outer queries
                 own_names = [_without_alias(f.name) for f in own_fields]
                 known_fields |= {
@@ -214,6 +225,7 @@ class SelectStatement:
                     if own_names.count(_without_alias(f.name)) == 1
                     and not _is_wildcard(f.name)
                 }
+            known_fields |= own_fields
 
         for e in self.expressions:
             errors += e.validate(known_fields)
-- 
2.43.0


From 18a75c96a10e2cd83d9651da4583be94eb57178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:49 +0000
Subject: [PATCH 67/99] fix: ORDER BY refers to the columns of the result

---
 sqlvalidator/grammar/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fc69c1f..4d985dc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -240,7 +240,11 @@ class SelectStatement:
         for _, query in self.set_operations:
             errors += query.validate(set())
         if self.order_by_clause:
-            errors += self.order_by_clause.validate(known_fields, self.expressions)
+            # The columns of the result can be referred to as well
+            errors += self.order_by_clause.validate(
+                known_fields | {f for f in self.known_fields if f.name != "*"},
+                self.expressions,
+            )
         if self.limit_clause:
             errors += self.limit_clause.validate(known_fields)
         if self.offset_clause:
@@ -575,8 +579,7 @@ class OrderByItem(Expression):
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
         else:
-            aliases = _alias_fields(select_expressions or ())
-            errors += self.value.validate(known_fields | aliases)
+            errors += self.value.validate(known_fields)
         return errors
 
 
-- 
2.43.0


From 5cdbeb4b203f01a92fa49a48cd4b2dc3fef5b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:27 +0000
Subject: [PATCH 68/99] fix: cross and natural joins are left-associative

---
 sqlvalidator/grammar/lexer.py | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 86beaff..42d33fe 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -1,3 +1,4 @@
+from itertools import chain
 from typing import Any, Optional, Tuple
 
 from sqlvalidator.grammar.sql import (
@@ -345,26 +346,33 @@ class FromStatementParser:
             )
             join_type = JoinTypeParser.parse(iter(expression_tokens))
 
-            if Join.is_unconstrained(join_type):
-                expression_tokens, next_token = [next_token] + list(tokens), None
+            on = None
+            using = None
+            if join_type == ",":
+                # All other joins bind more tightly
+                right_expr = FromStatementParser.parse(chain([next_token], tokens))
+                next_token = None
+            elif Join.is_unconstrained(join_type):
+                expression_tokens, next_token = get_tokens_until_one_of(
+                    tokens, Join.VALUES, first_token=next_token
+                )
+                right_expr = FromStatementParser.parse(iter(expression_tokens))
             else:
                 expression_tokens, next_token = get_tokens_until_one_of(
                     tokens, ("on", "using"), first_token=next_token
                 )
-            right_expr = FromStatementParser.parse(iter(expression_tokens))
-            on = None
-            using = None
-            on_or_using = next_token
-            expression_tokens, next_token = get_tokens_until_one_of(
-                tokens,
-                Join.VALUES,
-            )
-            if lower(on_or_using) == "on":
-                expression, _ = ExpressionParser.parse(iter(expression_tokens))
-                on = OnClause(expression)
-            elif lower(on_or_using) == "using":
-                expressions, _ = ExpressionParser.parse(iter(expression_tokens))
-                using = UsingClause(expressions)
+                right_expr = FromStatementParser.parse(iter(expression_tokens))
+                on_or_using = next_token
+                expression_tokens, next_token = get_tokens_until_one_of(
+                    tokens,
+                    Join.VALUES,
+                )
+                if lower(on_or_using) == "on":
+                    expression, _ = ExpressionParser.parse(iter(expression_tokens))
+                    on = OnClause(expression)
+                elif lower(on_or_using) == "using":
+                    expressions, _ = ExpressionParser.parse(iter(expression_tokens))
+                    using = UsingClause(expressions)
 
             expression = Join(join_type, left_expr, right_expr, on=on, using=using)
 
-- 
2.43.0


From 1d520f6443b47ff84e7fd598cf25750253e3746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 69/99] fix: columns of outer queries are not ambiguous to a
 query of a table

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4d985dc..95806c1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -225,6 +225,13 @@ class SelectStatement:
                     if own_names.count(_without_alias(f.name)) == 1
                     and not _is_wildcard(f.name)
                 }
+                if any(_is_wildcard(f.name) for f in own_fields):
+                    # Every column can be one of this query
+                    known_fields |= {
+                        _FieldInfo(_without_alias(f.name), object)
+                        for f in outer_fields
+                        if not _is_wildcard(f.name)
+                    }
             known_fields |= own_fields
 
         for e in self.expressions:
-- 
2.43.0


From 44088e1c448f5f33b94349a7119af9c24346c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 70/99] fix: validate the conditions of joins

---
 sqlvalidator/grammar/sql.py | 83 +++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 95806c1..34bd44b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -81,6 +81,45 @@ def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo
     }
 
 
+def _visible_fields(own_fields, outer_fields) -> Set[_FieldInfo]:
+    """
+    The columns that a query can refer to, out of its own and those of outer queries.
+    """
+    if not outer_fields:
+        return set(own_fields)
+    # An alias of this query hides the same alias of outer queries
+    own_aliases = {_field_alias(f.name) for f in own_fields}
+    fields = {
+        _FieldInfo(_without_alias(f.name), f.type)
+        if _field_alias(f.name) in own_aliases
+        else f
+        for f in outer_fields
+    }
+    # Columns of this query take precedence over those of outer queries
+    own_names = [_without_alias(f.name) for f in own_fields]
+    fields |= {
+        _FieldInfo(_without_alias(f.name), f.type)
+        for f in own_fields
+        if own_names.count(_without_alias(f.name)) == 1 and not _is_wildcard(f.name)
+    }
+    if any(_is_wildcard(f.name) for f in own_fields):
+        # Every column can be one of this query
+        fields |= {
+            _FieldInfo(_without_alias(f.name), object)
+            for f in outer_fields
+            if not _is_wildcard(f.name)
+        }
+    return fields | own_fields
+
+
+def _validate_from(from_statement, outer_fields) -> list:
+    # Out of what is selected from, only the conditions of joins see outer queries
+    joined = from_statement
+    while isinstance(joined, (Alias, Parenthesis)):
+        joined = joined.expression if isinstance(joined, Alias) else joined.value
+    return from_statement.validate(outer_fields if isinstance(joined, Join) else set())
+
+
 def _is_position(value: int, select_expressions) -> bool:
     # The number of columns that a star stands for is unknown
     has_star = any(
@@ -205,39 +244,13 @@ class SelectStatement:
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
         outer_fields = known_fields or set()
-        known_fields = set(outer_fields)
-        if hasattr(self.from_statement, "known_fields"):
-            own_fields = self.from_statement.known_fields
-            if outer_fields:
-                # An alias of this query hides the same alias of outer queries
-                own_aliases = {_field_alias(f.name) for f in own_fields}
-                known_fields = {
-                    _FieldInfo(_without_alias(f.name), f.type)
-                    if _field_alias(f.name) in own_aliases
-                    else f
-                    for f in outer_fields
-                }
-                # Columns of this query take precedence over those of outer queries
-                own_names = [_without_alias(f.name) for f in own_fields]
-                known_fields |= {
-                    _FieldInfo(_without_alias(f.name), f.type)
-                    for f in own_fields
-                    if own_names.count(_without_alias(f.name)) == 1
-                    and not _is_wildcard(f.name)
-                }
-                if any(_is_wildcard(f.name) for f in own_fields):
-                    # Every column can be one of this query
-                    known_fields |= {
-                        _FieldInfo(_without_alias(f.name), object)
-                        for f in outer_fields
-                        if not _is_wildcard(f.name)
-                    }
-            known_fields |= own_fields
+        own_fields = getattr(self.from_statement, "known_fields", set())
+        known_fields = _visible_fields(own_fields, outer_fields)
 
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
-            errors += self.from_statement.validate(known_fields=set())
+            errors += _validate_from(self.from_statement, outer_fields)
         if self.where_clause:
             errors += self.where_clause.validate(known_fields)
         if self.group_by_clause:
@@ -1659,8 +1672,16 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if not self.is_unconstrained(self.join_type) and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
-        errors += self.left_from.validate(known_fields)
-        errors += self.right_from.validate(known_fields)
+        errors += _validate_from(self.left_from, known_fields)
+        # FROM a, b JOIN c: the condition of the join can refer to a
+        left_fields = self.left_from.known_fields
+        errors += _validate_from(
+            self.right_from, _visible_fields(left_fields, known_fields)
+        )
+        if self.on:
+            errors += self.on.value.validate(
+                _visible_fields(self.known_fields, known_fields)
+            )
         return errors
 
     @property
-- 
2.43.0


From e8b7a3958fff939098a62960a1a30ceb4c5bbcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:04 +0000
Subject: [PATCH 71/99] fix: a comment after an f-string does not belong to the
 string before it

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 1fedee4..2776db8 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -294,7 +294,7 @@ def get_following_comment(tokens: list, index: int) -> str:
     for token in tokens[index + 1 :]:
         if token.type == tokenize.COMMENT:
             return token.string
-        if token.type == tokenize.STRING:
+        if tokenize.tok_name[token.type] in ("STRING", "FSTRING_START"):
             break
     return ""
 
-- 
2.43.0


From b1011741eca588b0d074d8afaa1e2f6666a2050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:08 +0000
Subject: [PATCH 72/99] fix: parts of concatenated strings may be in
 parentheses

---
 sqlvalidator/file_handler.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 2776db8..f8fd890 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import re
 import shutil
@@ -7,7 +8,7 @@ import tempfile
 import tokenize
 import warnings
 from io import StringIO
-from typing import IO, List, Optional, Set, Tuple
+from typing import IO, Iterable, Iterator, List, Optional, Set, Tuple
 
 from . import sql_formatter, sql_validator
 from .grammar.lexer import ParsingError
@@ -305,22 +306,31 @@ def is_concatenated(tokens: list, index: int) -> bool:
     """
 
     def is_part(token) -> bool:
-        return (
+        return token is not None and (
             token.type == tokenize.STRING
             or tokenize.tok_name[token.type].startswith("FSTRING")
             or (token.type == tokenize.OP and token.string == "+")
         )
 
-    ignored_types = (tokenize.NL, tokenize.COMMENT)
-    previous_token = index - 1
-    while previous_token >= 0 and tokens[previous_token].type in ignored_types:
-        previous_token -= 1
-    next_token = index + 1
-    while next_token < len(tokens) and tokens[next_token].type in ignored_types:
-        next_token += 1
-    return (previous_token >= 0 and is_part(tokens[previous_token])) or (
-        next_token < len(tokens) and is_part(tokens[next_token])
-    )
+    def is_called(token) -> bool:
+        return token is not None and (
+            token.string in (")", "]", "}")
+            or (token.type == tokenize.NAME and not keyword.iskeyword(token.string))
+        )
+
+    def get_code_tokens(indices: Iterable[int]) -> Iterator[tokenize.TokenInfo]:
+        ignored_types = (tokenize.NL, tokenize.COMMENT)
+        return (tokens[i] for i in indices if tokens[i].type not in ignored_types)
+
+    tokens_before = get_code_tokens(range(index - 1, -1, -1))
+    tokens_after = get_code_tokens(range(index + 1, len(tokens)))
+    before, after = next(tokens_before, None), next(tokens_after, None)
+    while before and after and (before.string, after.string) == ("(", ")"):
+        before = next(tokens_before, None)
+        if is_called(before):
+            return False
+        after = next(tokens_after, None)
+    return is_part(before) or is_part(after)
 
 
 def split_quotes(sql_string: str) -> Tuple[str, str, str]:
-- 
2.43.0


From 43b46650fd94d0cabcbc069ef0bc1541693c329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 73/99] fix: keep the owner of files that are rewritten

---
 sqlvalidator/file_handler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index f8fd890..d27adbc 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,4 +1,5 @@
 import ast
+import contextlib
 import keyword
 import os
 import re
@@ -227,6 +228,7 @@ def write_file(filename: str, content: str, encoding: str) -> None:
     try:
         with open(file_descriptor, "w", encoding=encoding, newline="") as file:
             file.write(content)
+        copy_owner(filename, temporary_filename)
         shutil.copymode(filename, temporary_filename)
         os.replace(temporary_filename, filename)
     except BaseException:
@@ -234,6 +236,14 @@ def write_file(filename: str, content: str, encoding: str) -> None:
         raise
 
 
+def copy_owner(filename: str, other_filename: str) -> None:
+    owner = os.stat(filename)
+    other_owner = os.stat(other_filename)
+    if (owner.st_uid, owner.st_gid) != (other_owner.st_uid, other_owner.st_gid):
+        with contextlib.suppress(PermissionError):
+            shutil.chown(other_filename, owner.st_uid, owner.st_gid)
+
+
 def compute_file_content(
     file: IO, should_format: bool, should_validate: bool
 ) -> Tuple[int, str, int, list]:
-- 
2.43.0


From 46b1f4b6dee387b7145fed933b01893e5fea7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:04 +0000
Subject: [PATCH 74/99] fix: a backslash outside of strings escapes nothing

---
 sqlvalidator/grammar/tokeniser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 0f3d1dc..5985003 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -220,8 +220,10 @@ def _split_on_kept_token(token: str, value: str):
     if token == "." and "." in value and value.replace(".", "").isdigit():
         yield value
     else:
-        for elem in split_with_sep(value, token):
-            yield from split_tokens(elem)
+        # Nothing is escaped outside of strings
+        for elem in re.split("({})".format(re.escape(token)), value):
+            if elem:
+                yield from split_tokens(elem)
 
 
 def _split_around_unsplit_tokens(value: str):
-- 
2.43.0


From 4a4f991aedd1c5c1cda9eeff669681c0dae2510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 75/99] fix: do not replace a link that could not be followed

---
 sqlvalidator/file_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index d27adbc..235c693 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -4,6 +4,7 @@ import keyword
 import os
 import re
 import shutil
+import stat
 import sys
 import tempfile
 import tokenize
@@ -220,6 +221,8 @@ def write_file(filename: str, content: str, encoding: str) -> None:
     """
     Replace the file at once, to not lose its content if it cannot be written.
     """
+    if stat.S_ISLNK(os.lstat(filename).st_mode):
+        raise OSError("link could not be followed")
     if not os.access(filename, os.W_OK):
         raise PermissionError("file is not writable")
     file_descriptor, temporary_filename = tempfile.mkstemp(
-- 
2.43.0


From a8612313f846bfb66c98ed6100df24bafd56cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 76/99] fix: LEFT and RIGHT followed by a parenthesis are
 functions in the condition of a join

---
 sqlvalidator/grammar/lexer.py | 9 +++++++++
 sqlvalidator/grammar/sql.py   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 42d33fe..984c766 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -367,6 +367,15 @@ class FromStatementParser:
                     tokens,
                     Join.VALUES,
                 )
+                while lower(next_token) in Join.FUNCTION_NAMES:
+                    following_token = next(tokens, None)
+                    tokens = chain([following_token], tokens)
+                    if following_token != "(":
+                        break
+                    function_tokens, next_token = get_tokens_until_one_of(
+                        tokens, Join.VALUES, first_token=next_token
+                    )
+                    expression_tokens += function_tokens
                 if lower(on_or_using) == "on":
                     expression, _ = ExpressionParser.parse(iter(expression_tokens))
                     on = OnClause(expression)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 34bd44b..ce64afb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1548,6 +1548,8 @@ class Join(Expression):
         ",",
         "each",
     )
+    # Join types that are also names of functions
+    FUNCTION_NAMES = ("left", "right")
     # Join types that have neither ON nor USING
     UNCONSTRAINED = ("CROSS", "NATURAL", ",")
 
-- 
2.43.0


From 3e2dca83565ca2116c2d8443a416aee7256ec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 77/99] fix: neither separate nor join strings and their
 prefixes

---
 sqlvalidator/grammar/tokeniser.py | 20 ++++++++++++++++++++
 sqlvalidator/sql_formatter.py     | 11 +++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 5985003..03d60ab 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -24,6 +24,7 @@ KEPT_SPLIT_TOKENS = (
     ".",
 )
 STRING_OR_COMMENT_START_PATTERN = re.compile(r"['\"`]|--|/\*")
+STRING_PREFIX_PATTERN = re.compile(r"\b(?:r|b|rb|br|n|x|e)\Z", re.IGNORECASE)
 COMMENT_PATTERN = re.compile(r"--[^\n]*|/\*.*?(?:\*/|\Z)", re.DOTALL)
 # Placeholders, numbers in scientific notation and operators that contain split tokens
 UNSPLIT_TOKEN_PATTERN = re.compile(
@@ -264,6 +265,25 @@ def to_tokens(value: str):
     yield from merge_stream(tokens, MERGE_TOKENS)
 
 
+def get_string_prefixes(value: str):
+    """
+    The prefix of each string, which differs from a word followed by a string.
+    """
+    prefixes = []
+    index = 0
+    string_start = STRING_OR_COMMENT_START_PATTERN.search(value)
+    while string_start:
+        if string_start.group() in STRING_SPLIT_TOKENS:
+            prefix = STRING_PREFIX_PATTERN.search(value, index, string_start.start())
+            prefixes.append(lower(prefix.group()) if prefix else None)
+            quote = string_start.group()
+            index = _find_closing_quote(value, quote, string_start.end()) + 1
+        else:
+            index = COMMENT_PATTERN.match(value, string_start.start()).end()
+        string_start = STRING_OR_COMMENT_START_PATTERN.search(value, index)
+    return prefixes
+
+
 def without_comments(tokens):
     quote = None
     for token in tokens:
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index 4778dc5..00e6680 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -6,7 +6,12 @@ from sqlvalidator.grammar.lexer import (
     parse_statement,
 )
 from sqlvalidator.grammar.sql import transform_statement
-from sqlvalidator.grammar.tokeniser import lower, to_tokens, track_quote
+from sqlvalidator.grammar.tokeniser import (
+    get_string_prefixes,
+    lower,
+    to_tokens,
+    track_quote,
+)
 
 
 def format_sql(sql_string: str) -> str:
@@ -25,7 +30,9 @@ def format_statement(sql_string: str, statement) -> str:
 
 
 def have_same_tokens(sql_string: str, other_sql_string: str) -> bool:
-    return _comparable_tokens(sql_string) == _comparable_tokens(other_sql_string)
+    return _comparable_tokens(sql_string) == _comparable_tokens(
+        other_sql_string
+    ) and get_string_prefixes(sql_string) == get_string_prefixes(other_sql_string)
 
 
 def _comparable_tokens(sql_string: str) -> List[str]:
-- 
2.43.0


From c8f826fbc10c3c7acb1173ea1723e513d4a45e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 78/99] fix: keep the case of columns that are cast to a type
 with parameters

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ce64afb..868b1a0 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -724,7 +724,9 @@ class FunctionCall(Expression):
             or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
         )
 
-        function_str = self.function_name.upper() + "("
+        # The type of a column::type(length) is read like a function
+        column, cast, function_name = self.function_name.rpartition("::")
+        function_str = column + cast + function_name.upper() + "("
         if with_newlines:
             function_str += "\n "
             function_str += (
-- 
2.43.0


From 37c5ecf467b26492e3afc3c1ac8f173bfcf377c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:11 +0000
Subject: [PATCH 79/99] fix: an alias that is no name does not break validation

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 868b1a0..6917c77 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -35,7 +35,9 @@ class _FieldInfo:
 
 
 def _alias_name(alias) -> str:
-    return lower(alias if isinstance(alias, str) else alias.value)
+    return lower(
+        alias.value if isinstance(alias, (Column, String)) else transform(alias)
+    )
 
 
 def _column_name(expression) -> Optional[str]:
-- 
2.43.0


From f68906f0fb73a2d2820225d16b65d3021c3f1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:43 +0000
Subject: [PATCH 80/99] fix: resolve the columns of indexes and of qualified
 functions

---
 sqlvalidator/grammar/sql.py | 67 +++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6917c77..33a76fe 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -57,6 +57,12 @@ def _column_name(expression) -> Optional[str]:
     return None
 
 
+def _without_index(expression):
+    while isinstance(expression, Index):
+        expression = expression.value
+    return expression
+
+
 def _is_cast(column) -> bool:
     if isinstance(column, ChainedColumns):
         return _is_cast(column.columns[-1])
@@ -937,6 +943,9 @@ class AnalyticsClause(Expression):
         return errors
 
 
+FUNCTION_CALLS = (FunctionCall, FilteredFunctionCall, AnalyticsClause)
+
+
 class WindowFrameClause(Expression):
     def __init__(self, rows_range, frame):
         self.rows_range = rows_range
@@ -1052,23 +1061,36 @@ class ChainedColumns(Expression):
     def return_type(self):
         return self.columns[-1].return_type
 
+    @property
+    def _parts(self) -> List[Expression]:
+        parts: List[Expression] = []
+        for column in self.columns:
+            is_chain = isinstance(column, ChainedColumns)
+            parts += column._parts if is_chain else [column]
+        return parts
+
     def _leading_names(self) -> List[str]:
         names = []
-        for column in self.columns:
-            if isinstance(column, ChainedColumns):
-                column_names = column._leading_names()
-                is_name = len(column_names) == len(column.columns)
-            else:
-                is_name = _column_name(column) is not None
-                # The fields of what is accessed by an index are unknown
-                indexed = column.value if isinstance(column, Index) else column
-                name = _column_name(indexed)
-                column_names = [] if name is None else [name]
-            names += column_names
-            if not is_name:
+        for part in self._parts:
+            name = _column_name(_without_index(part))
+            if name is None:
+                break
+            names.append(name)
+            # The fields of what is accessed by an index are unknown
+            if isinstance(part, Index):
                 break
         return names
 
+    @property
+    def _is_qualified_function(self) -> bool:
+        parts = self._parts
+        position = len(self._leading_names())
+        return (
+            0 < position < len(parts)
+            and not isinstance(parts[position - 1], Index)
+            and isinstance(_without_index(parts[position]), FUNCTION_CALLS)
+        )
+
     @staticmethod
     def _is_known(names: List[str], known_names: Set[str]) -> bool:
         if "*" in known_names:
@@ -1091,12 +1113,23 @@ class ChainedColumns(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         names = self._leading_names()
-        if len(names) < 2:
-            return errors + self.columns[0].validate(known_fields)
-        alias = ".".join(map(transform, self.columns[:-1]))
-        last_value = self.columns[-1]
-        if not self._is_known(names, {f.name for f in known_fields}):
+        parts = self._parts
+        if self._is_qualified_function:
+            pass
+        elif len(names) < 2:
+            errors += _without_index(parts[0]).validate(known_fields)
+        elif not self._is_known(names, {f.name for f in known_fields}):
+            alias = ".".join(map(transform, self.columns[:-1]))
+            last_value = self.columns[-1]
             errors.append(f"The column {last_value} was not found in alias {alias}")
+        for position, part in enumerate(parts):
+            function = _without_index(part)
+            if position > 0 and isinstance(function, FUNCTION_CALLS):
+                errors += function.validate(known_fields)
+            while isinstance(part, Index):
+                for index in part.indices:
+                    errors += index.validate(known_fields)
+                part = part.value
         return errors
 
 
-- 
2.43.0


From 22ceae0240771f335200acb4180fc4e7bc9ac1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 81/99] fix: placeholders can stand for any part of a qualified
 column

---
 sqlvalidator/grammar/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 33a76fe..f827efc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1114,7 +1114,11 @@ class ChainedColumns(Expression):
         errors = super().validate(known_fields)
         names = self._leading_names()
         parts = self._parts
-        if self._is_qualified_function:
+        has_placeholder = any(
+            isinstance(part, Column) and part.is_placeholder
+            for part in map(_without_index, parts[: len(names)])
+        )
+        if self._is_qualified_function or has_placeholder:
             pass
         elif len(names) < 2:
             errors += _without_index(parts[0]).validate(known_fields)
-- 
2.43.0


From 20a745206d5fc192a66a251ffd7d04842d418249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:00 +0000
Subject: [PATCH 82/99] fix: every query of a correlated set operation sees the
 outer columns

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f827efc..5e011c4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -266,7 +266,7 @@ class SelectStatement:
         if self.having_clause:
             errors += self.having_clause.validate(known_fields)
         for _, query in self.set_operations:
-            errors += query.validate(set())
+            errors += query.validate(outer_fields)
         if self.order_by_clause:
             # The columns of the result can be referred to as well
             errors += self.order_by_clause.validate(
-- 
2.43.0


From dce1b882dce25d11086910e1f0fa54ffe3561ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 83/99] fix: validate the expressions of DISTINCT ON

---
 sqlvalidator/grammar/sql.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5e011c4..a05b148 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -255,6 +255,11 @@ class SelectStatement:
         own_fields = getattr(self.from_statement, "known_fields", set())
         known_fields = _visible_fields(own_fields, outer_fields)
 
+        # The columns of the result can be referred to as well
+        ordering_fields = known_fields | {f for f in self.known_fields if f.name != "*"}
+
+        for e in self.select_distinct_on or []:
+            errors += e.validate(ordering_fields)
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
@@ -268,11 +273,7 @@ class SelectStatement:
         for _, query in self.set_operations:
             errors += query.validate(outer_fields)
         if self.order_by_clause:
-            # The columns of the result can be referred to as well
-            errors += self.order_by_clause.validate(
-                known_fields | {f for f in self.known_fields if f.name != "*"},
-                self.expressions,
-            )
+            errors += self.order_by_clause.validate(ordering_fields, self.expressions)
         if self.limit_clause:
             errors += self.limit_clause.validate(known_fields)
         if self.offset_clause:
-- 
2.43.0


From b75cabd32282ca5266c041b8d82113e46cbc1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 84/99] fix: validate the star, the columns and the expressions
 of EXCEPT and REPLACE

---
 sqlvalidator/grammar/sql.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a05b148..d4c8ae6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1985,6 +1985,30 @@ class SelectAllClause(Expression):
         return except_str + ")"
 
 
+    @property
+    def columns(self) -> list:
+        return list(self.args)
+
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        star_errors = self.value.validate(known_fields)
+        if star_errors:
+            return errors + star_errors
+        star = self.value
+        while isinstance(star, SelectAllClause):
+            star = star.value
+        prefix = (_column_name(star) or "*")[:-1]
+        # Without known fields of the star, it can have any column
+        star_fields = {
+            _FieldInfo(_without_alias(f.name), f.type)
+            for f in known_fields
+            if f.name.startswith(prefix)
+        } or {_FieldInfo("*", object)}
+        for column in self.columns:
+            errors += column.validate(star_fields)
+        return errors
+
+
 class ExceptClause(SelectAllClause):
     KEYWORD = "EXCEPT"
 
@@ -1992,10 +2016,14 @@ class ExceptClause(SelectAllClause):
 class ReplaceClause(SelectAllClause):
     KEYWORD = "REPLACE"
 
+    @property
+    def columns(self) -> list:
+        return [arg.alias for arg in self.args]
+
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
         for arg in self.args:
-            errors += arg.alias.validate(known_fields)
+            errors += arg.validate(known_fields)
         return errors
 
 
-- 
2.43.0


From 89dd130fc6b27d4e554b61504a4163c76f393a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:22 +0000
Subject: [PATCH 85/99] fix: validate the columns of USING

---
 sqlvalidator/grammar/sql.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d4c8ae6..02f8839 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1726,8 +1726,21 @@ class Join(Expression):
             errors += self.on.value.validate(
                 _visible_fields(self.known_fields, known_fields)
             )
+        for column in self._merged_columns:
+            # Both sides have these columns
+            for from_ in (self.left_from, self.right_from):
+                names = {_without_alias(f.name) for f in from_.known_fields}
+                if not names & {_column_name(column), "*"}:
+                    errors += column.validate(set())
+                    break
         return errors
 
+    @property
+    def _merged_columns(self) -> List[Expression]:
+        value = self.using.value if isinstance(self.using, UsingClause) else None
+        columns = value.args if isinstance(value, Parenthesis) else []
+        return [column for column in columns if _column_name(column)]
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         left_fields = self.left_from.known_fields
@@ -1740,15 +1753,10 @@ class Join(Expression):
                 for f in left_fields
                 if not _is_wildcard(f.name) and _without_alias(f.name) in right_names
             }
-        if isinstance(self.using, UsingClause) and isinstance(
-            self.using.value, Parenthesis
-        ):
-            # Both sides have these columns, but they are merged into one
-            known_fields |= {
-                _FieldInfo(_column_name(column), object)
-                for column in self.using.value.args
-                if _column_name(column)
-            }
+        # Both sides have these columns, but they are merged into one
+        known_fields |= {
+            _FieldInfo(_column_name(column), object) for column in self._merged_columns
+        }
         return known_fields
 
 
-- 
2.43.0


From 866186180ec695dc354c2c31b283a3ea5230c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:47 +0000
Subject: [PATCH 86/99] fix: report columns that a join by ON leaves ambiguous
 after USING

Columns that USING merged are no longer the only ones with their name when a
later join provides another one.
---
 sqlvalidator/grammar/sql.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 02f8839..921a9dc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -81,6 +81,10 @@ def _field_alias(name: str) -> str:
     return name.rpartition(".")[0]
 
 
+def _is_aliased(name: str, column_name: str) -> bool:
+    return bool(_field_alias(name)) and _without_alias(name) == column_name
+
+
 def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo]:
     return {
         _FieldInfo(_alias_name(e.alias), e.resolve_return_type(from_fields))
@@ -1746,6 +1750,16 @@ class Join(Expression):
         left_fields = self.left_from.known_fields
         right_fields = self.right_from.known_fields
         known_fields = left_fields | right_fields
+        # Columns that have been merged are no longer the only ones with their name
+        left_names = {_without_alias(f.name) for f in left_fields}
+        names = left_names & {_without_alias(f.name) for f in right_fields}
+        known_fields -= {
+            f
+            for f in known_fields
+            if f.name in names
+            and not _is_wildcard(f.name)
+            and len([1 for g in known_fields if _is_aliased(g.name, f.name)]) > 1
+        }
         if self.join_type.startswith("NATURAL"):
             right_names = {_without_alias(f.name) for f in right_fields}
             known_fields |= {
-- 
2.43.0


From 44c6a95693ee5e5c179529c4f0a69f6619031b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:49 +0000
Subject: [PATCH 87/99] fix: hidden columns of outer queries are not taken for
 ambiguous ones

---
 sqlvalidator/grammar/sql.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 921a9dc..2692eb7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -93,22 +93,31 @@ def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo
     }
 
 
+# Begins an alias that cannot be referred to
+HIDDEN_ALIAS = " "
+
+
 def _visible_fields(own_fields, outer_fields) -> Set[_FieldInfo]:
     """
     The columns that a query can refer to, out of its own and those of outer queries.
     """
     if not outer_fields:
         return set(own_fields)
-    # An alias of this query hides the same alias of outer queries
     own_aliases = {_field_alias(f.name) for f in own_fields}
-    fields = {
-        _FieldInfo(_without_alias(f.name), f.type)
-        if _field_alias(f.name) in own_aliases
-        else f
-        for f in outer_fields
-    }
-    # Columns of this query take precedence over those of outer queries
     own_names = [_without_alias(f.name) for f in own_fields]
+    fields = set()
+    for f in outer_fields:
+        if not _field_alias(f.name):
+            # Columns of this query take precedence over those of outer queries
+            if _is_wildcard(f.name) or f.name not in own_names:
+                fields.add(f)
+        elif _field_alias(f.name) not in own_aliases:
+            fields.add(f)
+        elif _is_wildcard(f.name):
+            fields.add(_FieldInfo("*", f.type))
+        else:
+            # An alias of this query hides the same alias of outer queries
+            fields.add(_FieldInfo(HIDDEN_ALIAS + f.name, f.type))
     fields |= {
         _FieldInfo(_without_alias(f.name), f.type)
         for f in own_fields
-- 
2.43.0


From 03e3e2d5b962f397183cd2f43c4c00ede1ccd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:51 +0000
Subject: [PATCH 88/99] fix: report fields of ambiguous columns

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2692eb7..8ae7521 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1140,6 +1140,9 @@ class ChainedColumns(Expression):
             alias = ".".join(map(transform, self.columns[:-1]))
             last_value = self.columns[-1]
             errors.append(f"The column {last_value} was not found in alias {alias}")
+        elif not any(f.name.startswith(names[0] + ".") for f in known_fields):
+            # A field of a column
+            errors += _without_index(parts[0]).validate(known_fields)
         for position, part in enumerate(parts):
             function = _without_index(part)
             if position > 0 and isinstance(function, FUNCTION_CALLS):
-- 
2.43.0


From e06a7385c0a2cd68565874b9e02524d1596d2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 89/99] fix: the star of a subquery with nothing but unnamed
 columns is known

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8ae7521..0893ecc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -95,6 +95,8 @@ def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo
 
 # Begins an alias that cannot be referred to
 HIDDEN_ALIAS = " "
+# Of a column that cannot be referred to
+UNNAMED_COLUMN = ""
 
 
 def _visible_fields(own_fields, outer_fields) -> Set[_FieldInfo]:
@@ -334,6 +336,8 @@ class SelectStatement:
             elif column_name or isinstance(e, Alias):
                 name = _without_alias(column_name or _alias_name(e.alias))
                 fields.add(_FieldInfo(name, e.resolve_return_type(from_fields)))
+            else:
+                fields.add(_FieldInfo(UNNAMED_COLUMN, object))
 
         return fields
 
-- 
2.43.0


From b6be6ba0d38f0a7a947bc9411e4f60801a1f2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:45 +0000
Subject: [PATCH 90/99] fix: aliases of subqueries stand for their rows

---
 sqlvalidator/grammar/sql.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0893ecc..642ca34 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -85,6 +85,11 @@ def _is_aliased(name: str, column_name: str) -> bool:
     return bool(_field_alias(name)) and _without_alias(name) == column_name
 
 
+def _is_row(name: Optional[str], known_fields) -> bool:
+    # An alias in FROM stands for the row as well
+    return any(f.name.startswith("{}.".format(name)) for f in known_fields)
+
+
 def _alias_fields(select_expressions, from_fields=frozenset()) -> Set[_FieldInfo]:
     return {
         _FieldInfo(_alias_name(e.alias), e.resolve_return_type(from_fields))
@@ -521,8 +526,9 @@ class GroupByClause(Expression):
                 ]
                 if len(fields_without_alias) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
-                elif len(fields_without_alias) == 0 and not any(
-                    _is_wildcard(f.name) for f in known_fields
+                elif len(fields_without_alias) == 0 and not (
+                    _is_row(name, known_fields)
+                    or any(_is_wildcard(f.name) for f in known_fields)
                 ):
                     errors.append('column "{}" does not exist'.format(arg.value))
         elif not isinstance(arg, Alias):
@@ -1051,8 +1057,9 @@ class Column(Expression):
             ]
             if len(fields_without_alias) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
-            elif len(fields_without_alias) == 0 and not any(
-                _is_wildcard(f.name) for f in known_fields
+            elif len(fields_without_alias) == 0 and not (
+                _is_row(_column_name(self), known_fields)
+                or any(_is_wildcard(f.name) for f in known_fields)
             ):
                 errors.append("The column {} was not found".format(self.value))
         return errors
-- 
2.43.0


From e6865cd94b123d21243149de9eeaeb65cfdcc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:58 +0000
Subject: [PATCH 91/99] fix: support quoted names of WITH queries and of
 offsets

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 984c766..7d36f59 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -454,6 +454,8 @@ class UnnestParser:
                     offset_alias = next(tokens)
                 else:
                     offset_alias = next_token
+                if offset_alias in String.QUOTES:
+                    offset_alias = StringParser.parse(tokens, offset_alias)
                 next_token = next(tokens, None)
 
         return (
@@ -475,6 +477,8 @@ class WithStatementParser:
         with_query_name = None
         while lower(with_query_name) != "select":
             with_query_name = next(tokens)
+            if with_query_name in String.QUOTES:
+                with_query_name = StringParser.parse(tokens, with_query_name)
             next_token = next(tokens)
             assert lower(next_token) == "as", next_token
             next_token = next(tokens)
-- 
2.43.0


From 9851153cd9d078c2e8b85f9bdcf2f58e7920bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:54 +0000
Subject: [PATCH 92/99] fix: an interrupt after a file was replaced still ends
 the run

---
 sqlvalidator/file_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 235c693..a7a7c7c 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -235,7 +235,8 @@ def write_file(filename: str, content: str, encoding: str) -> None:
         shutil.copymode(filename, temporary_filename)
         os.replace(temporary_filename, filename)
     except BaseException:
-        os.unlink(temporary_filename)
+        with contextlib.suppress(FileNotFoundError):
+            os.unlink(temporary_filename)
         raise
 
 
-- 
2.43.0


From 405fde04caf2f614e5fda551d3126fc2de0241a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:35 +0000
Subject: [PATCH 93/99] fix: a condition that is cast is read like any other
 operand

CAST(a = 1 AS bool) was refused, and errors in what is cast were missed.
---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 7d36f59..49eb0df 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -719,7 +719,7 @@ class ExpressionParser:
                     )
                     column, _ = ExpressionParser.parse(
                         iter(column_tokens),
-                        is_right_hand=True,
+                        can_alias=False,
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-- 
2.43.0


From b3c62eacdb812fa09b8097b784659301bd8c7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:35 +0000
Subject: [PATCH 94/99] fix: the array that UNNEST reads is validated

Missing columns and wrong subqueries in it were not reported.
---
 sqlvalidator/grammar/sql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 642ca34..f3800a3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -141,11 +141,12 @@ def _visible_fields(own_fields, outer_fields) -> Set[_FieldInfo]:
 
 
 def _validate_from(from_statement, outer_fields) -> list:
-    # Out of what is selected from, only the conditions of joins see outer queries
+    # Out of what is selected from, only the conditions of joins and arrays see others
     joined = from_statement
     while isinstance(joined, (Alias, Parenthesis)):
         joined = joined.expression if isinstance(joined, Alias) else joined.value
-    return from_statement.validate(outer_fields if isinstance(joined, Join) else set())
+    sees_others = isinstance(joined, (Join, Unnest))
+    return from_statement.validate(outer_fields if sees_others else set())
 
 
 def _is_position(value: int, select_expressions) -> bool:
@@ -1590,6 +1591,11 @@ class Unnest(Expression):
                 unnest_str += f" {self.offset_alias}"
         return unnest_str
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        return errors
+
     def __eq__(self, other):
         return (
             (isinstance(other, type(self)) or isinstance(self, type(other)))
-- 
2.43.0


From e7b08b6cc5dfe560244750332021f5d9ef7b4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:12 +0000
Subject: [PATCH 95/99] fix: columns of UNNEST that several preceding items
 have are ambiguous

The items of FROM a, b, UNNEST(c) are nested to the right, and those of b hid
those of a.
---
 sqlvalidator/grammar/sql.py | 46 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f3800a3..8bb9f1c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -140,6 +140,20 @@ def _visible_fields(own_fields, outer_fields) -> Set[_FieldInfo]:
     return fields | own_fields
 
 
+def _joined_fields(left_fields, right_fields) -> Set[_FieldInfo]:
+    known_fields = left_fields | right_fields
+    # Columns that have been merged are no longer the only ones with their name
+    left_names = {_without_alias(f.name) for f in left_fields}
+    names = left_names & {_without_alias(f.name) for f in right_fields}
+    return known_fields - {
+        f
+        for f in known_fields
+        if f.name in names
+        and not _is_wildcard(f.name)
+        and len([1 for g in known_fields if _is_aliased(g.name, f.name)]) > 1
+    }
+
+
 def _validate_from(from_statement, outer_fields) -> list:
     # Out of what is selected from, only the conditions of joins and arrays see others
     joined = from_statement
@@ -1745,19 +1759,25 @@ class Join(Expression):
             self.using,
         )
 
-    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+    def validate(
+        self, known_fields: Set[_FieldInfo], preceding_fields=frozenset()
+    ) -> list:
         errors = super().validate(known_fields)
         if not self.is_unconstrained(self.join_type) and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
-        errors += _validate_from(self.left_from, known_fields)
+        outer_fields = _visible_fields(preceding_fields, known_fields)
+        errors += _validate_from(self.left_from, outer_fields)
         # FROM a, b JOIN c: the condition of the join can refer to a
-        left_fields = self.left_from.known_fields
-        errors += _validate_from(
-            self.right_from, _visible_fields(left_fields, known_fields)
-        )
+        left_fields = _joined_fields(preceding_fields, self.left_from.known_fields)
+        if isinstance(self.right_from, Join):
+            errors += self.right_from.validate(known_fields, left_fields)
+        else:
+            errors += _validate_from(
+                self.right_from, _visible_fields(left_fields, known_fields)
+            )
         if self.on:
             errors += self.on.value.validate(
-                _visible_fields(self.known_fields, known_fields)
+                _visible_fields(self.known_fields, outer_fields)
             )
         for column in self._merged_columns:
             # Both sides have these columns
@@ -1778,17 +1798,7 @@ class Join(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         left_fields = self.left_from.known_fields
         right_fields = self.right_from.known_fields
-        known_fields = left_fields | right_fields
-        # Columns that have been merged are no longer the only ones with their name
-        left_names = {_without_alias(f.name) for f in left_fields}
-        names = left_names & {_without_alias(f.name) for f in right_fields}
-        known_fields -= {
-            f
-            for f in known_fields
-            if f.name in names
-            and not _is_wildcard(f.name)
-            and len([1 for g in known_fields if _is_aliased(g.name, f.name)]) > 1
-        }
+        known_fields = _joined_fields(left_fields, right_fields)
         if self.join_type.startswith("NATURAL"):
             right_names = {_without_alias(f.name) for f in right_fields}
             known_fields |= {
-- 
2.43.0


From 6c8a09e504ef3bd97b5d6ee28c2e90c53529faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:57 +0000
Subject: [PATCH 96/99] fix: values and placeholders that are cast are no
 missing columns

null::int, 1::int, ?::int and current_date::text were reported.
---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8bb9f1c..8d2f5cf 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1044,11 +1044,13 @@ class Column(Expression):
     )
     # Start of literals
     LITERALS = ("array", "interval")
+    # Values that are cast, as in null::int
+    CAST_VALUE = re.compile(r"(null|true|false|[\d.]+(e[+-]?\d+)?)::.*", re.I)
     PLACEHOLDER = re.compile(r"%s|%\(\w+\)s|\?|[:@$]\w+|\{\w*\}")
 
     @property
     def is_placeholder(self) -> bool:
-        return bool(self.PLACEHOLDER.fullmatch(self.value))
+        return bool(self.PLACEHOLDER.fullmatch(self.value.split("::", 1)[0]))
 
     def __str__(self):
         if self.value in self.KEYWORDS:
@@ -1061,9 +1063,10 @@ class Column(Expression):
             not any(f.name == _column_name(self) for f in known_fields)
             and self.value != "*"
             and not any(f.name == "*" for f in known_fields)
-            and lower(self.value)
+            and _column_name(self)
             not in self.KEYWORDS + self.NILADIC_FUNCTIONS + self.LITERALS
             and not self.is_placeholder
+            and not self.CAST_VALUE.fullmatch(self.value)
         ):
             fields_without_alias = [
                 f
-- 
2.43.0


From 6fc70fb4fa8490e6cd1df1743f8bc8c1c214db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:18 +0000
Subject: [PATCH 97/99] fix: columns that are cast to types with a length are
 columns

x::varchar(10) was read like a function without arguments: missing and ambiguous
columns were not reported, and subqueries that select it had no column x.
---
 sqlvalidator/grammar/sql.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8d2f5cf..9b7e172 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -50,6 +50,8 @@ def _column_name(expression) -> Optional[str]:
     if isinstance(expression, Column):
         # A cast keeps the name
         return lower(expression.value.split("::", 1)[0])
+    if isinstance(expression, FunctionCall) and expression.cast_column:
+        return _column_name(expression.cast_column)
     if has_single_argument(expression):
         return _column_name(expression.args[0])
     if isinstance(expression, String) and expression.quotes != "'":
@@ -66,6 +68,8 @@ def _without_index(expression):
 def _is_cast(column) -> bool:
     if isinstance(column, ChainedColumns):
         return _is_cast(column.columns[-1])
+    if isinstance(column, FunctionCall):
+        return bool(column.cast_column)
     return isinstance(column, Column) and "::" in column.value
 
 
@@ -764,6 +768,11 @@ class FunctionCall(Expression):
         self.function_name = function_name
         self.args = args
 
+    @property
+    def cast_column(self):
+        # The type of a column::type(length) is read like a function
+        return Column(self.function_name) if "::" in self.function_name else None
+
     def __str__(self):
         transformed_args = [transform(arg) for arg in self.args]
         with_newlines = (
@@ -771,7 +780,6 @@ class FunctionCall(Expression):
             or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
         )
 
-        # The type of a column::type(length) is read like a function
         column, cast, function_name = self.function_name.rpartition("::")
         function_str = column + cast + function_name.upper() + "("
         if with_newlines:
@@ -786,6 +794,8 @@ class FunctionCall(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.cast_column:
+            errors += self.cast_column.validate(known_fields)
         for a in self.args:
             is_date_part = (
                 isinstance(a, Column)
@@ -1174,7 +1184,8 @@ class ChainedColumns(Expression):
             errors += _without_index(parts[0]).validate(known_fields)
         for position, part in enumerate(parts):
             function = _without_index(part)
-            if position > 0 and isinstance(function, FUNCTION_CALLS):
+            is_function = isinstance(function, FUNCTION_CALLS)
+            if position > 0 and is_function and not _is_cast(function):
                 errors += function.validate(known_fields)
             while isinstance(part, Index):
                 for index in part.indices:
-- 
2.43.0


From 3da9c3497d99a3ddd4ed70ab147f5f9630b8e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:07 +0000
Subject: [PATCH 98/99] fix: ORDER BY and DISTINCT ON can refer to the fields
 of a struct's star

The fields of a struct are unknown: what s.* selects can be any column.
---
 sqlvalidator/grammar/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9b7e172..c331e5e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -295,7 +295,11 @@ class SelectStatement:
         known_fields = _visible_fields(own_fields, outer_fields)
 
         # The columns of the result can be referred to as well
-        ordering_fields = known_fields | {f for f in self.known_fields if f.name != "*"}
+        ordering_fields = known_fields | {
+            # Unknown columns of the result, which have no alias
+            _FieldInfo(UNNAMED_COLUMN + ".*", object) if f.name == "*" else f
+            for f in self.known_fields
+        }
 
         for e in self.select_distinct_on or []:
             errors += e.validate(ordering_fields)
-- 
2.43.0


From c54ea980f9666fecc34ce1b5230b78abc118c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:53 +0000
Subject: [PATCH 99/99] fix: report columns that are cast to types with a
 length as they are formatted

Col::Varchar(10) was reported as Col::Varchar, its formatted text as Col::VARCHAR.
---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c331e5e..8be8c60 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -775,7 +775,8 @@ class FunctionCall(Expression):
     @property
     def cast_column(self):
         # The type of a column::type(length) is read like a function
-        return Column(self.function_name) if "::" in self.function_name else None
+        column, cast, type_name = self.function_name.rpartition("::")
+        return Column(column + cast + type_name.upper()) if cast else None
 
     def __str__(self):
         transformed_args = [transform(arg) for arg in self.args]
-- 
2.43.0

