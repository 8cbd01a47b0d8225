From 8e516899a810238bfc1286f23bfc36c4d2047787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:48 +0000
Subject: [PATCH 01/25] fix: keep text around escaped separators as written

A text ending with a backslash got a separator appended, and only one
escaped separator was glued back per value.
---
 sqlvalidator/grammar/tokeniser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..d44bd29 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -101,12 +101,12 @@ def split_with_escaping(s: str, sep: str):
     split_iterator = iter(s.split(sep))
     value = next(split_iterator, None)
     while value is not None:
-        # Glue values together if defined
-        if value.endswith("\\"):
-            value += sep
+        # Glue values together as long as the separator is escaped
+        while value.endswith("\\"):
             next_value = next(split_iterator, None)
-            if next_value:
-                value += next_value
+            if next_value is None:
+                break
+            value += sep + next_value
         # Add to list, and keep looping
         splitted.append(value)
         value = next(split_iterator, None)
-- 
2.43.0


From f1fadba82077371e62d021cdc05df50582109882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 02/25] fix: tokenise literals one after the other

A literal containing another kind of quote after a literal was split and
lost its blanks, and a text whose only quotes or separators were escaped
recursed for ever.
---
 sqlvalidator/grammar/tokeniser.py | 44 ++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index d44bd29..fa7e2a5 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -136,17 +136,13 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
-        else:
-            yield from split_tokens(elem)
+def _get_first_string_token(value: str) -> Optional[str]:
+    first_token, first_index = None, len(value)
+    for token in STRING_SPLIT_TOKENS:
+        index = len(split_with_escaping(value, token)[0])
+        if index < first_index:
+            first_token, first_index = token, index
+    return first_token
 
 
 def _split_on_whitespace_token(token: str, value: str):
@@ -164,13 +160,21 @@ def _split_on_kept_token(token: str, value: str):
 
 
 def split_tokens(value: str):
-    for string_token in sorted(
-        STRING_SPLIT_TOKENS,
-        key=lambda token: value.index(token) if token in value else (len(value) + 1),
-    ):
-        if string_token in value:
-            yield from _split_on_string_token(string_token, value)
+    string_token = _get_first_string_token(value)
+    while string_token is not None:
+        # Everything up to the closing quote is kept as it is
+        before, content, *after = split_with_escaping(value, string_token)
+        if before:
+            yield from split_tokens(before)
+        yield string_token
+        if content:
+            yield content
+        if after:
+            yield string_token
+        value = string_token.join(after)
+        if not value:
             return
+        string_token = _get_first_string_token(value)
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
@@ -178,7 +182,11 @@ def split_tokens(value: str):
             return
 
     for kept_token in KEPT_SPLIT_TOKENS:
-        if kept_token in value and value != kept_token:
+        if (
+            kept_token in value
+            and value != kept_token
+            and len(split_with_escaping(value, kept_token)) > 1
+        ):
             yield from _split_on_kept_token(kept_token, value)
             return
 
-- 
2.43.0


From b297a0ce410d4052b115236e2a2de6dc4aeab61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 03/25] fix: do not look for keywords, brackets and commas
 inside literals

SELECT 'from' FROM t, f(')') or f("'", 'a') could not be parsed, and a
CASE in capitals at the start of a clause was not recognised.
---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 28 +++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..9244e61 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -511,10 +512,12 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        open_quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            if open_quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,15 +525,14 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
+            open_quote = get_open_quote(next_token, open_quote)
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and open_quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index fa7e2a5..917d241 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,16 +25,29 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(token: Optional[str], open_quote: Optional[str] = None):
+    """Quote of the literal that is open once the token has been read."""
+    if open_quote is None:
+        return token if token in STRING_SPLIT_TOKENS else None
+    return None if token == open_quote else open_quote
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    open_quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and open_quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
+        open_quote = get_open_quote(next_token, open_quote)
         next_token = next(tokens, None)
 
     return argument_tokens
@@ -47,9 +60,11 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
+    open_quote = get_open_quote(first_token)
     while next_token is not None and not (
-        lower(next_token) in stop_words
+        open_quote is None
+        and lower(next_token) in stop_words
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -59,7 +74,9 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -71,6 +88,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
             count_case_expr += 1
         elif lower(next_token) == "end":
             count_case_expr -= 1
+        open_quote = get_open_quote(next_token, open_quote)
         next_token = next(tokens, None)
 
     return argument_tokens, next_token
-- 
2.43.0


From d917284f879d30a5c62a0ce628cd910cf0413cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 04/25] fix: read on after a prefixed string literal

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 9244e61..9e1b828 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -752,6 +752,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
-- 
2.43.0


From e364e802c251294d8e352e3cd0ee235b51d2ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 05/25] fix: keep the commas of a subquery in an expression
 list

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 9e1b828..7025154 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -533,6 +533,7 @@ class ExpressionListParser:
                 and count_parenthesis == 0
                 and count_square_brackets == 0
                 and open_quote is None
+                and lower(expression_tokens[0]) != "select"
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
-- 
2.43.0


From e4a528bb69aa5e0e013005a169ff9a525cb1bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 06/25] fix: keep the quoted alias of a string literal

---
 sqlvalidator/grammar/lexer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 7025154..cf859fa 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -916,7 +916,6 @@ class ExpressionParser:
         if (
             next_token is not None
             and next_token != ")"
-            and not (next_token in String.QUOTES and isinstance(expression, String))
             and next_token != ";"
             and lower(next_token) not in until_one_of
             and can_alias
-- 
2.43.0


From d76f7a12a83993dcfa5bf6e16bc8e0add91065fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 07/25] fix: keep every item of a parenthesis that is broken
 over lines

---
 sqlvalidator/grammar/sql.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..aef17ad 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -12,6 +12,10 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def transform_items(parenthesis: "Parenthesis") -> str:
+    return ", ".join(map(transform, parenthesis.args))
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -262,7 +266,8 @@ class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            items = transform_items(self.value)
+            return " (\n " + items.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -349,7 +354,8 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            items = transform_items(self.value)
+            return " (\n " + items.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1379,7 +1385,8 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            items = transform_items(self.value)
+            return " (\n " + items.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1389,7 +1396,8 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            items = transform_items(self.value)
+            return " (\n " + items.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1468,7 +1476,7 @@ class BooleanCondition(Expression):
             if isinstance(a, BooleanCondition):
                 transformed_a = a.transform(with_newline=True)
             elif isinstance(a, Parenthesis):
-                transformed_a = transform(a.args[0])
+                transformed_a = transform_items(a)
                 if "\n" in transformed_a:
                     transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
                 else:
@@ -1582,7 +1590,7 @@ class Case(Expression):
             transformed_when = transform(when)
             if isinstance(when, Parenthesis) and "\n" in transformed_when:
                 when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
+                    " (\n  " + transform_items(when).replace("\n", "\n  ") + "\n )\n "
                 )
             elif "\n" in transformed_when:
                 when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
-- 
2.43.0


From 86eff4cfea9e9d0a046029331dfdd968a06479ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:56 +0000
Subject: [PATCH 08/25] fix: keep the token after the alias of an expression

---
 sqlvalidator/grammar/lexer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index cf859fa..51347ca 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -922,15 +922,16 @@ class ExpressionParser:
         ):
             if lower(next_token) == "as":
                 with_as = True
-                alias, _ = ExpressionParser.parse(
+                alias, next_token = ExpressionParser.parse(
                     tokens, is_right_hand=True, until_one_of=until_one_of
                 )
             else:
                 with_as = False
                 alias = next_token
-            if alias in String.QUOTES:
-                alias = StringParser.parse(tokens, alias)
-            return Alias(expression, alias, with_as), next(tokens, None)
+                if alias in String.QUOTES:
+                    alias = StringParser.parse(tokens, alias)
+                next_token = next(tokens, None)
+            return Alias(expression, alias, with_as), next_token
         return expression, next_token
 
 
-- 
2.43.0


From bc3b905754b24bacb9cabdc2900c0710197b1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 09/25] fix: refuse tokens the query tree has no place for
 instead of dropping them

---
 sqlvalidator/grammar/lexer.py | 61 ++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 51347ca..3927216 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -60,6 +60,11 @@ class ParsingError(Exception):
     pass
 
 
+def check_no_token_left(next_token):
+    if next_token is not None:
+        raise ParsingError("unexpected {!r}".format(next_token))
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -87,7 +92,9 @@ class SelectStatementParser:
             select_distinct = True
             next_token = next(tokens)
             if lower(next_token) == "on":
-                next(tokens)  # Consume parenthesis
+                next_token = next(tokens)
+                if next_token != "(":
+                    raise ParsingError("expected '('")
                 distinct_on_tokens = get_tokens_until_closing_parenthesis(tokens)
                 select_distinct_on = ExpressionListParser.parse(
                     iter(distinct_on_tokens)
@@ -163,7 +170,12 @@ class SelectStatementParser:
         else:
             offset_clause = None
 
+        while next_token == ")":  # nothing left to close
+            next_token = next(tokens, None)
         semi_colon = bool(next_token and next_token == ";")
+        if semi_colon:
+            next_token = next(tokens, None)
+        check_no_token_left(next_token)
         return SelectStatement(
             select_all=select_all,
             select_distinct=select_distinct,
@@ -206,7 +218,7 @@ class FromStatementParser:
             argument_tokens, next_token = get_tokens_until_one_of(
                 tokens, stop_words=["]"]
             )
-            table, _ = ExpressionParser.parse(iter(argument_tokens))
+            table = ExpressionParser.parse_all(iter(argument_tokens))
             expression = Table(table, in_square_brackets=True)
             assert next_token == "]", next_token
             next_token = next(tokens, None)
@@ -219,7 +231,7 @@ class FromStatementParser:
                     stop_words=Join.VALUES + CombinedQueries.SET_OPERATORS,
                     first_token=next_token,
                 )
-                expression = Table(ExpressionParser.parse(iter(argument_tokens))[0])
+                expression = Table(ExpressionParser.parse_all(iter(argument_tokens)))
 
         if (
             next_token is not None
@@ -291,10 +303,10 @@ class FromStatementParser:
                 Join.VALUES,
             )
             if lower(on_or_using) == "on":
-                expression, _ = ExpressionParser.parse(iter(expression_tokens))
+                expression = ExpressionParser.parse_all(iter(expression_tokens))
                 on = OnClause(expression)
             elif lower(on_or_using) == "using":
-                expressions, _ = ExpressionParser.parse(iter(expression_tokens))
+                expressions = ExpressionParser.parse_all(iter(expression_tokens))
                 using = UsingClause(expressions)
 
             expression = Join(join_type, left_expr, right_expr, on=on, using=using)
@@ -311,6 +323,7 @@ class FromStatementParser:
                 expression = Alias(expression, alias, with_as)
                 next_token = next(tokens, None)
 
+        check_no_token_left(next_token)
         return expression
 
 
@@ -386,8 +399,8 @@ class WithStatementParser:
     def parse(tokens):
         with_queries = []
 
-        with_query_name = None
-        while lower(with_query_name) != "select":
+        next_token = ","
+        while next_token == ",":
             with_query_name = next(tokens)
             next_token = next(tokens)
             assert lower(next_token) == "as", next_token
@@ -398,8 +411,10 @@ class WithStatementParser:
             )
 
             with_queries.append(WithQuery(with_query_name, with_statement))
-            with_query_name = next(tokens)
+            next_token = next(tokens)
 
+        if lower(next_token) != "select":
+            raise ParsingError("unexpected {!r}".format(next_token))
         select_statement = SelectStatementParser.parse(tokens)
         return WithStatement(with_queries, select_statement)
 
@@ -466,7 +481,7 @@ class OrderByItemParser:
     @staticmethod
     def parse(tokens):
         expression_tokens, next_token = get_tokens_until_one_of(tokens, ["asc", "desc"])
-        expression, _ = ExpressionParser.parse(iter(expression_tokens))
+        expression = ExpressionParser.parse_all(iter(expression_tokens))
         if lower(next_token) == "asc":
             has_asc = True
             has_desc = False
@@ -476,6 +491,7 @@ class OrderByItemParser:
         else:
             has_asc = False
             has_desc = False
+        check_no_token_left(next(tokens, None))
 
         return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc)
 
@@ -487,19 +503,20 @@ class LimitClauseParser:
         if lower(next_token) == "all":
             limit_all = True
             expression = None
+            check_no_token_left(next(tokens, None))
         else:
             limit_all = False
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens, [], first_token=next_token
             )
-            expression, _ = ExpressionParser.parse(iter(expression_tokens))
+            expression = ExpressionParser.parse_all(iter(expression_tokens))
         return LimitClause(limit_all, expression)
 
 
 class OffsetClauseParser:
     @staticmethod
     def parse(tokens):
-        expression, _ = ExpressionParser.parse(tokens)
+        expression = ExpressionParser.parse_all(tokens)
         return OffsetClause(expression)
 
 
@@ -535,7 +552,7 @@ class ExpressionListParser:
                 and open_quote is None
                 and lower(expression_tokens[0]) != "select"
             ):
-                expression, _ = ExpressionParser.parse(
+                expression = ExpressionParser.parse_all(
                     iter(expression_tokens), can_be_type=can_be_type
                 )
                 expressions.append(expression)
@@ -545,6 +562,12 @@ class ExpressionListParser:
 
 
 class ExpressionParser:
+    @classmethod
+    def parse_all(cls, tokens, **kwargs) -> Expression:
+        expression, next_token = cls.parse(tokens, **kwargs)
+        check_no_token_left(next_token)
+        return expression
+
     @staticmethod
     def parse(
         tokens,
@@ -611,7 +634,7 @@ class ExpressionParser:
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens, stop_words=["as"]
                     )
-                    column, _ = ExpressionParser.parse(
+                    column = ExpressionParser.parse_all(
                         iter(column_tokens),
                         is_right_hand=True,
                         until_one_of=until_one_of,
@@ -636,7 +659,7 @@ class ExpressionParser:
                         stop_words=[")", "ignore", "respects", "order", "limit"],
                         first_token=first_token,
                     )
-                    column, _ = ExpressionParser.parse(
+                    column = ExpressionParser.parse_all(
                         iter(column_tokens), until_one_of=until_one_of
                     )
 
@@ -711,6 +734,7 @@ class ExpressionParser:
                         iter(argument_tokens[1:]),
                         can_alias=False,
                     )
+                    check_no_token_left(next_token)
 
                     expression = FilteredFunctionCall(expression, filter_condition)
                     next_token = next(tokens, None)
@@ -793,6 +817,7 @@ class ExpressionParser:
                     rows_range, " ".join(expression_tokens)
                 )
             else:
+                check_no_token_left(argument_next_token)
                 frame_clause = None
 
             expression = AnalyticsClause(
@@ -961,21 +986,21 @@ class CaseParser:
             expressions_tokens, next_token = get_tokens_until_one_of(
                 tokens, ["when"], first_token=next_token
             )
-            expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+            expression = ExpressionParser.parse_all(iter(expressions_tokens))
 
         when_then = []
         else_expression = None
         while next_token:
             if lower(next_token) == "when":
                 expressions_tokens, _ = get_tokens_until_one_of(tokens, ["then"])
-                when_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                when_expression = ExpressionParser.parse_all(iter(expressions_tokens))
                 expressions_tokens, next_token = get_tokens_until_one_of(
                     tokens, ["when", "else"]
                 )
-                then_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                then_expression = ExpressionParser.parse_all(iter(expressions_tokens))
                 when_then.append((when_expression, then_expression))
             elif lower(next_token) == "else":
                 expressions_tokens, next_token = get_tokens_until_one_of(tokens, [])
-                else_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                else_expression = ExpressionParser.parse_all(iter(expressions_tokens))
 
         return Case(expression, when_then, else_expression)
-- 
2.43.0


From 71154f8967cf3c2aed2e0af50fe257a2d11132b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 10/25] fix: keep NOT LIKE, RESPECT NULLS and LIMIT 0 of
 array_agg

---
 sqlvalidator/grammar/lexer.py | 6 +++---
 sqlvalidator/grammar/sql.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3927216..6617f2e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -656,7 +656,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column = ExpressionParser.parse_all(
@@ -866,8 +866,8 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in ("in", "like", "contains"):
+                    symbol = "not " + lower(next_next_token)
                 else:
                     first_token = next_next_token
 
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index aef17ad..b275f4b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -640,7 +640,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 0b827369e1e6800f8254826e00368f791074dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 11/25] fix: split != from the word before it

---
 sqlvalidator/grammar/tokeniser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 917d241..9a50d3b 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -13,6 +13,7 @@ KEPT_SPLIT_TOKENS = (
     "-",
     "*",
     "/",
+    "!",
     "=",
     "<",
     ">",
-- 
2.43.0


From c34b6e874b911104d2bae7b583d590b8f29e4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:38 +0000
Subject: [PATCH 12/25] fix: render nested expressions that have no str() of
 their own

---
 sqlvalidator/grammar/sql.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b275f4b..d1ef7be 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -62,7 +62,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -240,7 +240,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
@@ -296,9 +296,9 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
-                "\n", "\n "
-            )
+            group_by_str = "\n{}".format(
+                ",\n".join(map(transform, self.args))
+            ).replace("\n", "\n ")
         else:
             group_by_str = " " + transform(self.args[0])
         if self.rollup:
@@ -380,10 +380,10 @@ class OrderByClause(Expression):
     def transform(self, allow_linebreak=True):
         if len(self.args) > 1:
             if allow_linebreak:
-                order_by_str = "\n" + ",\n".join(map(str, self.args))
+                order_by_str = "\n" + ",\n".join(map(transform, self.args))
                 order_by_str = order_by_str.replace("\n", "\n ")
             else:
-                order_by_str = " " + ", ".join(map(str, self.args))
+                order_by_str = " " + ", ".join(map(transform, self.args))
         else:
             order_by_str = " " + transform(self.args[0])
         return order_by_str
@@ -414,7 +414,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -458,7 +458,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -519,11 +519,14 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def __eq__(self, other):
         return (
@@ -1105,7 +1108,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1597,7 +1600,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += "THEN {}".format(transform(then))
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From 0689988444d10429bdfbbd04a26a8c3891bfb7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 13/25] fix: validate every query the parser builds without
 raising

---
 sqlvalidator/grammar/sql.py | 82 ++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d1ef7be..93ecd3e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -16,6 +16,18 @@ def transform_items(parenthesis: "Parenthesis") -> str:
     return ", ".join(map(transform, parenthesis.args))
 
 
+def strip_parentheses(value: Any) -> Any:
+    while isinstance(value, Parenthesis) and len(value.args) == 1:
+        value = value.args[0]
+    return value
+
+
+def get_alias_name(alias: Any) -> str:
+    if isinstance(alias, (Column, String)):
+        return alias.value
+    return transform(alias)
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -151,6 +163,13 @@ class SelectStatement:
             errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def return_type(self):
+        return object
+
+    def resolve_return_type(self, known_fields):
+        return self.return_type
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
@@ -158,10 +177,7 @@ class SelectStatement:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
-                else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
+                fields.add(_FieldInfo(get_alias_name(e.alias), e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -322,8 +338,7 @@ class GroupByClause(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         for arg in self.args:
-            while isinstance(arg, Parenthesis):
-                arg = arg.args[0]
+            arg = strip_parentheses(arg)
             if isinstance(arg, Integer) and (
                 arg.value <= 0 or arg.value > len(select_expressions)
             ):
@@ -335,7 +350,11 @@ class GroupByClause(Expression):
                 and (
                     not any(f.name == arg.value for f in known_fields)
                     and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                    not in [
+                        get_alias_name(e.alias)
+                        for e in select_expressions
+                        if isinstance(e, Alias)
+                    ]
                 )
                 and not any(f.name == "*" for f in known_fields)
             ):
@@ -343,7 +362,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
@@ -435,12 +454,12 @@ class OrderByItem(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        value = strip_parentheses(self.value)
 
         if isinstance(value, Integer):
-            if value.value <= 0 or value.value > len(select_expressions):
+            if select_expressions is not None and (
+                value.value <= 0 or value.value > len(select_expressions)
+            ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
@@ -469,9 +488,9 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        if self.limit_all:
+            return errors
+        value = strip_parentheses(self.value)
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -483,9 +502,7 @@ class LimitClause(Expression):
 class OffsetClause(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        value = strip_parentheses(self.value)
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
@@ -528,6 +545,17 @@ class WithStatement(Expression):
             statement_str = " " + statement_str.replace("\n", "\n ")
         return statement_str
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate()
+        errors += self.select_statement.validate()
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -591,6 +619,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
@@ -1022,6 +1053,7 @@ class Parenthesis(Expression):
     def return_type(self):
         for a in self.args:
             return a.return_type
+        return object
 
 
 class Array(Expression):
@@ -1198,6 +1230,11 @@ class Unnest(Expression):
         )
 
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
+
 class Join(Expression):
     VALUES = ("join", "inner", "left", "right", "full", "cross", "outer", ",", "each")
 
@@ -1324,14 +1361,14 @@ class Join(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
         if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
+            left_alias = transform(self.left_from.alias)
             for field in self.left_from.expression.known_fields:
                 known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
         else:
             known_fields |= self.left_from.known_fields
 
         if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
+            right_alias = transform(self.right_from.alias)
             for field in self.right_from.expression.known_fields:
                 known_fields.add(
                     _FieldInfo(
@@ -1384,6 +1421,11 @@ class CombinedQueries(Expression):
         )
 
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.left_query.known_fields
+
+
 class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-- 
2.43.0


From 445f2265922f6e64df0694b05f5e11d29a4e4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 14/25] fix: report the errors of joined and combined queries

---
 sqlvalidator/grammar/sql.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 93ecd3e..6fb3f5b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1355,6 +1355,8 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
+        errors += self.left_from.validate(known_fields)
+        errors += self.right_from.validate(known_fields)
         return errors
 
     @property
@@ -1421,6 +1423,12 @@ class CombinedQueries(Expression):
         )
 
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.left_query.validate(known_fields)
+        errors += self.right_query.validate(known_fields)
+        return errors
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return self.left_query.known_fields
-- 
2.43.0


From e16b0742af36f66d2994bf042ceedec80115bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 15/25] fix: report every query that cannot be parsed as
 invalid, each time

---
 sqlvalidator/sql_validator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..eca9ae2 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -14,7 +14,14 @@ class SQLQuery:
     @property
     def sql_query(self):
         if self._sql_query is None:
-            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
+            try:
+                self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
+            except (ParsingError, RecursionError):
+                raise
+            except Exception as ex:
+                raise ParsingError(
+                    "could not parse query ({}: {})".format(type(ex).__name__, ex)
+                ) from ex
         return self._sql_query
 
     def format(self) -> str:
@@ -26,11 +33,11 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
-            self.errors.append(str(ex))
+            self.errors = [str(ex)]
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From 2bb347efc16a3a3d02191332ed4c1e12e2823b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 16/25] fix: exit with 1 when --verbose-validate finds invalid
 queries

---
 sqlvalidator/file_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..c238794 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -90,13 +90,13 @@ def handle_inputs(
             inputs_info.num_changed_sql,
             check_input_format,
         )
-    if validate_input:
+    if validate_input or verbose_validate_input:
         print_validation_summary(
             inputs_info.num_invalid_files, inputs_info.num_invalid_sql
         )
 
     if (check_input_format and inputs_info.num_changed_sql > 0) or (
-        validate_input and inputs_info.num_invalid_sql > 0
+        (validate_input or verbose_validate_input) and inputs_info.num_invalid_sql > 0
     ):
         sys.exit(1)
 
-- 
2.43.0


From 51596f6c942e12b0f9f0fd70050dfff404f67395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:47 +0000
Subject: [PATCH 17/25] fix: render EXCEPT and REPLACE without columns

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6fb3f5b..f3c5b95 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1606,7 +1606,7 @@ class SelectAllClause(Expression):
         except_str = "{} {} (".format(transform(self.value), self.KEYWORD)
         if len(self.args) > 1:
             except_str += "\n {}\n".format(",\n ".join(map(transform, self.args)))
-        elif except_str:
+        elif self.args:
             except_str += transform(self.args[0])
         return except_str + ")"
 
-- 
2.43.0


From f9254810edfe37e2653690121c8a76091b8349ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 18/25] fix: refuse empty expression lists after DISTINCT ON,
 ROLLUP and PARTITION BY

---
 sqlvalidator/grammar/lexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6617f2e..039974e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -99,6 +99,8 @@ class SelectStatementParser:
                 select_distinct_on = ExpressionListParser.parse(
                     iter(distinct_on_tokens)
                 )
+                if not select_distinct_on:
+                    raise ParsingError("Missing expression after DISTINCT ON")
             else:
                 first_expression_token = next_token
         else:
@@ -449,6 +451,8 @@ class GroupByParser:
             tokens, [], first_token=next_token
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
+        if not expressions:
+            raise ParsingError("Missing expression after GROUP BY")
         return GroupByClause(*expressions, rollup=rollup)
 
 
@@ -796,6 +800,8 @@ class ExpressionParser:
                     argument_tokens, ["order", "rows", "range"]
                 )
                 partition_by = ExpressionListParser.parse(iter(expression_tokens))
+                if not partition_by:
+                    raise ParsingError("Missing expression after PARTITION BY")
             else:
                 partition_by = None
 
-- 
2.43.0


From 4f71653e012244f17ae37825677bcb185ba15433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 19/25] fix: refuse an opening parenthesis as alias

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039974e..a73d8ed 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -959,6 +959,8 @@ class ExpressionParser:
             else:
                 with_as = False
                 alias = next_token
+                if alias == "(":
+                    raise ParsingError("unexpected '('")
                 if alias in String.QUOTES:
                     alias = StringParser.parse(tokens, alias)
                 next_token = next(tokens, None)
-- 
2.43.0


From 4b748e2af9b6645df0713da24e79e9350c6847f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 20/25] fix: keep literals of a window frame as written

---
 sqlvalidator/grammar/lexer.py | 16 ++++++++++++++--
 sqlvalidator/grammar/sql.py   |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a73d8ed..6c2adab 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -46,6 +46,7 @@ from sqlvalidator.grammar.sql import (
     WindowFrameClause,
     WithQuery,
     WithStatement,
+    transform,
 )
 from sqlvalidator.grammar.tokeniser import (
     get_open_quote,
@@ -818,9 +819,8 @@ class ExpressionParser:
 
             if lower(argument_next_token) in ("rows", "range"):
                 rows_range = argument_next_token
-                expression_tokens, _ = get_tokens_until_one_of(argument_tokens, [])
                 frame_clause: Optional[WindowFrameClause] = WindowFrameClause(
-                    rows_range, " ".join(expression_tokens)
+                    rows_range, WindowFrameParser.parse(argument_tokens)
                 )
             else:
                 check_no_token_left(argument_next_token)
@@ -968,6 +968,18 @@ class ExpressionParser:
         return expression, next_token
 
 
+class WindowFrameParser:
+    @staticmethod
+    def parse(tokens):
+        frame = []
+        for token in tokens:
+            if token in String.QUOTES:
+                frame.append(transform(StringParser.parse(tokens, token)))
+            else:
+                frame.append(token.upper())
+        return " ".join(frame)
+
+
 class StringParser:
     @staticmethod
     def parse(tokens, start_quote, prefix=None):
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f3c5b95..1d64444 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -781,7 +781,7 @@ class WindowFrameClause(Expression):
         self.frame = frame
 
     def __str__(self):
-        return "{} {}".format(self.rows_range.upper(), self.frame.upper())
+        return "{} {}".format(self.rows_range.upper(), self.frame)
 
     def __repr__(self):
         return """<{}:
-- 
2.43.0


From 3e2f655ad83b6793eb524eccd50a59b9756624c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 21/25] fix: only a comment opts a query out, not the next
 string

---
 sqlvalidator/file_handler.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index c238794..5ae5b87 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -291,16 +291,13 @@ def compute_file_content(
                 (next_token, next_token_value, next_starting, next_ending, next_line)
             )
 
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
+        # Only a comment opts out, not the next string
+        comment = next_token_value if next_token == tokenize.COMMENT else ""
+        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
             formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
-            ):
+            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
             else:
-- 
2.43.0


From 6271046e4af63804e1ce90a8ce3aad314e1932a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 22/25] fix: a subquery offers its qualified columns and those
 of * EXCEPT or * REPLACE

---
 sqlvalidator/grammar/sql.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1d64444..10ce8fa 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -22,6 +22,12 @@ def strip_parentheses(value: Any) -> Any:
     return value
 
 
+def get_last_column(value: Any) -> Any:
+    while isinstance(value, ChainedColumns):
+        value = value.columns[-1]
+    return value
+
+
 def get_alias_name(alias: Any) -> str:
     if isinstance(alias, (Column, String)):
         return alias.value
@@ -174,10 +180,13 @@ class SelectStatement:
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
         for e in self.expressions:
-            if isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, e.return_type))
+            column = get_last_column(e)
+            if isinstance(column, Column):
+                fields.add(_FieldInfo(column.value, column.return_type))
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(get_alias_name(e.alias), e.return_type))
+            elif isinstance(e, SelectAllClause):
+                fields.add(_FieldInfo("*", e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
-- 
2.43.0


From b027a7596916a18e7b603037901c0a0c2f3d2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 23/25] fix: ORDER BY may name an alias of the select list

---
 sqlvalidator/grammar/sql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 10ce8fa..3f01102 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -472,7 +472,12 @@ class OrderByItem(Expression):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-        else:
+        elif not (
+            isinstance(value, Column)
+            and select_expressions is not None
+            and value.value
+            in [get_alias_name(e.alias) for e in select_expressions if isinstance(e, Alias)]
+        ):
             errors += self.value.validate(known_fields)
         return errors
 
-- 
2.43.0


From 631e0ad3d69631c3551795bf70087fdc1ef22587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 24/25] fix: the * of an aliased FROM item stands for every
 column, too

---
 sqlvalidator/grammar/sql.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3f01102..386ed8c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -28,6 +28,10 @@ def get_last_column(value: Any) -> Any:
     return value
 
 
+def is_everything(name: str) -> bool:
+    return name == "*" or name.endswith(".*")
+
+
 def get_alias_name(alias: Any) -> str:
     if isinstance(alias, (Column, String)):
         return alias.value
@@ -365,7 +369,7 @@ class GroupByClause(Expression):
                         if isinstance(e, Alias)
                     ]
                 )
-                and not any(f.name == "*" for f in known_fields)
+                and not any(is_everything(f.name) for f in known_fields)
             ):
                 fields_without_alias = [
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
@@ -842,7 +846,7 @@ class Column(Expression):
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
-            and not any(f.name == "*" for f in known_fields)
+            and not any(is_everything(f.name) for f in known_fields)
         ):
             fields_without_alias = [
                 f for f in known_fields if f.name.split(".", 1)[-1] == self.value
-- 
2.43.0


From e6011919992fe06115cff43d390e66709d372be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:24 +0000
Subject: [PATCH 25/25] fix: the type of a column offered with several types
 depended on the hash seed

---
 sqlvalidator/grammar/sql.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 386ed8c..c53657f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -285,10 +285,13 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
-        if matching_fields:
-            return matching_fields[0].type
-        return self.return_type
+        matching_types = [f.type for f in known_fields if f.name == transform(self)]
+        if not matching_types:
+            return self.return_type
+        first_type = matching_types[0]
+        if any(t != first_type for t in matching_types):
+            return object
+        return first_type
 
 
 class WhereClause(Expression):
-- 
2.43.0

