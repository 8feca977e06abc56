From f1355b62b3e6cc725e7dd528a4505df6dfaaea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 01/60] fix: slice selectors select nothing from strings

---
 jsonpath/selectors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..892104b 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
-- 
2.43.0


From 698395707ec9b5dd5fbd00215a1a54dc6130d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 02/60] fix: a quoted string may end with an escaped backslash

---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..08c278f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From 7dd074bc08bd9e7fa00f44e195c537d51de3c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 03/60] fix: white space before a dot does not swallow the dot

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 08c278f..8ac825f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -177,7 +177,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From 50275c618593aa8bfc4aba5f6e8010634b79f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 04/60] fix: shorthand names can use characters outside the BMP

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8ac825f..f6eb1fb 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From de74256fd7412c475155d26db7759ff0c4a63ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 05/60] fix: a name can start with a reserved word or the
 filter context token

---
 jsonpath/lex.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f6eb1fb..1ad07c9 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -87,14 +87,18 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # The end of a reserved word. `\b` is not enough, as a name can contain characters
+    # that are not "word" characters.
+    word_end_pattern = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{word_end_pattern})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{word_end_pattern})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{word_end_pattern})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -145,7 +149,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._env_token_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -153,15 +157,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{self.word_end_pattern}"),
+            (TOKEN_TRUE, rf"[Tt]rue{self.word_end_pattern}"),
+            (TOKEN_FALSE, rf"[Ff]alse{self.word_end_pattern}"),
+            (TOKEN_NIL, rf"[Nn]il{self.word_end_pattern}"),
+            (TOKEN_NULL, rf"[Nn]ull{self.word_end_pattern}"),
+            (TOKEN_NONE, rf"[Nn]one{self.word_end_pattern}"),
+            (TOKEN_CONTAINS, rf"contains{self.word_end_pattern}"),
+            (TOKEN_UNDEFINED, rf"undefined{self.word_end_pattern}"),
+            (TOKEN_MISSING, rf"missing{self.word_end_pattern}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
@@ -186,6 +190,14 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _env_token_pattern(self, token: str) -> str:
+        """Return a pattern matching an environment's identifier token."""
+        pattern = re.escape(token)
+        if re.search(rf"(?:{self.key_pattern})\Z", token):
+            # Don't match the start of a longer name.
+            return pattern + self.word_end_pattern
+        return pattern
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From 58508aacc9eee135104cfc5de7321ec139d6e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 06/60] fix: deep equality does not identify Booleans with
 numbers

---
 jsonpath/env.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..78d9c69 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -595,6 +595,24 @@ class JSONPathEnvironment:
         if isinstance(left, bool):
             return isinstance(right, bool) and left == right
 
+        # Containers could contain Booleans too.
+        if isinstance(left, Mapping) and isinstance(right, Mapping):
+            return len(left) == len(right) and all(
+                key in right and self._eq(value, right[key])
+                for key, value in left.items()
+            )
+
+        if (
+            isinstance(left, Sequence)
+            and isinstance(right, Sequence)
+            and not isinstance(left, (str, bytes))
+            and not isinstance(right, (str, bytes))
+        ):
+            return len(left) == len(right) and all(
+                self._eq(left_item, right_item)
+                for left_item, right_item in zip(left, right)
+            )
+
         return left == right
 
     def _lt(self, left: object, right: object) -> bool:
-- 
2.43.0


From e33007359c0ff5d557e49b4e1c11459b2789a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 07/60] fix: Booleans are not ordered

---
 jsonpath/env.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 78d9c69..9fb4337 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -619,6 +619,10 @@ class JSONPathEnvironment:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        # Remember that bool is a subclass of int in Python
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From ba4b0ccff6e99ad5301550b73877086e6330ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 08/60] fix: the asynchronous wildcard selector selects nothing
 from strings

---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 892104b..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -431,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From 299c5074e62b6e3e382fe73d43ca04dd6cf83056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 09/60] fix: $ and the filter context denote the query
 arguments at every filter depth

Also, a bare @ is a query like any other, whatever the candidate's type, so a
test is an existence test and functions are given a nodelist.
---
 jsonpath/filter.py | 66 +++++++++++++++++++++++++++++-----------------
 jsonpath/path.py   | 36 ++++++++++++++++++++++---
 2 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..d3fcba0 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -535,29 +535,24 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return NodeList(
+            self.path.resolve(
+                context.current,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
+            [
+                match
+                async for match in self.path.resolve_async(
+                    context.current,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -576,11 +571,24 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return NodeList(
+            self.path.resolve(
+                context.root,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
+            [
+                match
+                async for match in self.path.resolve_async(
+                    context.root,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -600,13 +608,23 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return NodeList(
+            self.path.resolve(
+                context.extra_context,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
             [
                 match
-                async for match in await self.path.finditer_async(context.extra_context)
+                async for match in self.path.resolve_async(
+                    context.extra_context,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
             ]
         )
 
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..aaa272f 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -125,14 +125,32 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context)
+
+    def resolve(
+        self,
+        obj: Any,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate a match for each node selected by this path, starting at _obj_.
+
+        Arguments:
+            obj: The value to start from. This will be different to _root_ if this
+                path is a relative query in a filter expression.
+            root: The JSON document `$` refers to in (nested) filter expressions.
+            filter_context: Arbitrary data made available to filters using
+                the _filter context_ selector.
+        """
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
                 filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -163,15 +181,25 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.resolve_async(_data, root=_data, filter_context=filter_context)
+
+    def resolve_async(
+        self,
+        obj: Any,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
                 filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From a9db1c69bf298116ef59f4600ba60d56d5ce21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 10/60] fix: integer literals do not lose precision or overflow

---
 jsonpath/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..7e10e93 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -526,8 +526,15 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        value = stream.current.value
+        try:
+            if "e" in value or "E" in value:
+                # Convert to float first to handle scientific notation.
+                return IntegerLiteral(value=int(float(value)))
+            return IntegerLiteral(value=int(value))
+        except (OverflowError, ValueError):
+            # Too big, or too many digits.
+            return FloatLiteral(value=float(value))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From a859c5520439caec0c36cb35167d856c43ad2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 11/60] fix: pointer tokens that are not canonical decimals are
 not indices

---
 jsonpath/pointer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..fcb6504 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,8 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_INDEX = re.compile(r"(?:0|-?[1-9][0-9]*)\Z")
+
 
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
@@ -108,8 +110,9 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Only canonical decimals are indices. Things like "01", "+1", " 1", "1_0",
+        # and non-ASCII digits are all names.
+        if not RE_INDEX.match(s):
             return s
 
         try:
-- 
2.43.0


From 4fffb28b0552f32745c8ffa495781f4ff9b9e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 12/60] fix: decoding escapes in a pointer leaves non-ASCII
 characters alone

---
 jsonpath/pointer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index fcb6504..24982f6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -245,12 +245,20 @@ class JSONPointer:
             )
         return ""
 
-    def _unicode_escape(self, s: str) -> str:
+    @staticmethod
+    def _unicode_escape(s: str) -> str:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
+        if "\\" not in s:
+            return s
         return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
+            # Anything outside the range of the "unicode-escape" codec is escaped
+            # first, so it survives decoding.
+            codecs.decode(
+                s.replace("\\/", "/").encode("latin-1", "backslashreplace"),
+                "unicode-escape",
+            )
             .encode("utf-16", "surrogatepass")
             .decode("utf-16")
         )
@@ -299,12 +307,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (cls._unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From 08414485251b9f73a92325d5aa029195bc5437a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 13/60] fix: only ASCII digits make a number in a query

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 1ad07c9..b1eac01 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -110,9 +110,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
+            r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>\-?[0-9]*))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -143,8 +143,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From dec32098eb9e3d356a643f3b4fcc6fa0ba6d581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 14/60] fix: a pointer token does not index into a string

---
 jsonpath/pointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 24982f6..0e981dd 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -124,6 +124,9 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            # Strings are primitive values, they have no items.
+            raise JSONPointerTypeError(f"{key}: can't index a string")
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From 3fff4e76b5e213218a0efbd1f9749588aae9f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 15/60] fix: malformed escape sequences in a pointer raise
 JSONPointerError

---
 jsonpath/pointer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 0e981dd..bd9461d 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -255,16 +255,19 @@ class JSONPointer:
         # section 2.5.
         if "\\" not in s:
             return s
-        return (
-            # Anything outside the range of the "unicode-escape" codec is escaped
-            # first, so it survives decoding.
-            codecs.decode(
-                s.replace("\\/", "/").encode("latin-1", "backslashreplace"),
-                "unicode-escape",
+        try:
+            return (
+                # Anything outside the range of the "unicode-escape" codec is escaped
+                # first, so it survives decoding.
+                codecs.decode(
+                    s.replace("\\/", "/").encode("latin-1", "backslashreplace"),
+                    "unicode-escape",
+                )
+                .encode("utf-16", "surrogatepass")
+                .decode("utf-16")
             )
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        except UnicodeDecodeError as err:
+            raise JSONPointerError(f"bad escape sequence: {err.reason}") from err
 
     @classmethod
     def from_match(
-- 
2.43.0


From cb7647a05f201d512317b5297f6023523a67f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 16/60] fix: JSON pointers are equal when their reference
 tokens are equal

---
 jsonpath/pointer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index bd9461d..0e98944 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -331,16 +331,15 @@ class JSONPointer:
 
     def is_relative_to(self, other: JSONPointer) -> bool:
         """Return _True_ if this pointer points to a child of _other_."""
-        return (
-            len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
-        )
+        # Array indices might be integers or strings, depending on how the pointers
+        # were constructed, so we compare their string representations.
+        return self._s.startswith(other._s + "/")
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._s == other._s
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._s)
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From ba11d85e8e6efd93770cbbba26860e3cb56fba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 17/60] fix: relative pointer index offsets can have any number
 of digits

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 0e98944..c3dc776 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -457,7 +457,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From 32aec07ed7b419f530e9ba369c090e45b07f6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 18/60] fix: don't strip white space from the end of a relative
 pointer

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index c3dc776..8d0f261 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -522,7 +522,7 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
-- 
2.43.0


From c3e5aa002e0cd852f292edefafbdbb0a8ed27268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 19/60] fix: don't decode escapes twice when applying a
 relative pointer

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 8d0f261..7a7838f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -605,9 +605,8 @@ class RelativeJSONPointer:
             assert self.pointer == "#"
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # Both pointers have been decoded already.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From d6d2262bb415e49551d83374cf5e384c75f009bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 20/60] fix: refuse the key of the root in a relative pointer

---
 jsonpath/pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 7a7838f..1453b4e 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -603,6 +603,8 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError("the root has no key or index")
             parts[-1] = f"#{parts[-1]}"
 
         # Both pointers have been decoded already.
-- 
2.43.0


From 9cbddbc3da7c3ef9dcca62f8f6a3ec82bd5e2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 21/60] fix: refuse an index offset when there is no index to
 offset

---
 jsonpath/pointer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 1453b4e..95bcbe6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -549,6 +549,8 @@ class RelativeJSONPointer:
     def _int_like(self, obj: Any) -> bool:
         if isinstance(obj, int):
             return True
+        if not RE_INDEX.match(obj):
+            return False
         try:
             int(obj)
         except ValueError:
@@ -590,7 +592,11 @@ class RelativeJSONPointer:
             parts = list(_pointer.parts[: -self.origin])
 
         # Array index offset
-        if self.index and parts and self._int_like(parts[-1]):
+        if self.index:
+            if not parts or not self._int_like(parts[-1]):
+                raise RelativeJSONPointerIndexError(
+                    "can't apply an index offset to something that is not an index"
+                )
             new_index = int(parts[-1]) + self.index
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
-- 
2.43.0


From 673823a4c7c5d7add8577e2031d98130c53e502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 22/60] fix: patch operations address values strictly, as per
 RFC 6901

---
 jsonpath/patch.py | 100 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 23 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..816a1da 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -4,15 +4,19 @@ from __future__ import annotations
 
 import copy
 import json
+import re
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Sequence
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -26,6 +30,59 @@ from jsonpath.exceptions import JSONPointerTypeError
 from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
+RE_ARRAY_INDEX = re.compile(r"(?:0|[1-9][0-9]*)\Z")
+
+
+def _step(obj: object, part: Union[int, str]) -> Tuple[Union[int, str], object]:
+    """Return the key or index _part_ stands for in _obj_, and the value it identifies.
+
+    Unlike `JSONPointer.resolve()`, we don't want any non-standard pointer features
+    here. JSON Patch (RFC 6902) operations target exactly what RFC 6901 says they do.
+    The value will be `UNDEFINED` if there's no such item.
+    """
+    if isinstance(obj, Mapping):
+        # The name of a member might look like an array index.
+        key = str(part) if part not in obj else part
+        return (key, obj[key] if key in obj else UNDEFINED)
+
+    if isinstance(obj, Sequence) and not isinstance(obj, str):
+        index = part
+        if isinstance(index, str) and RE_ARRAY_INDEX.match(index):
+            try:
+                index = int(index)
+            except ValueError as err:
+                raise JSONPointerIndexError(f"index out of range: {part}") from err
+        if index == "-":
+            return (index, UNDEFINED)
+        if isinstance(index, int):
+            return (index, obj[index] if 0 <= index < len(obj) else UNDEFINED)
+
+    raise JSONPointerTypeError(
+        f"{part}: unexpected token for {obj.__class__.__name__!r}"
+    )
+
+
+def _resolve_parent(
+    pointer: JSONPointer, data: object
+) -> Tuple[Any, Union[int, str], object]:
+    """Return the parent, key or index, and object at _pointer_.
+
+    The parent will be `None` if _pointer_ points to the document root. The object
+    will be `UNDEFINED` if the parent exists but the object does not.
+    """
+    if not pointer.parts:
+        return (None, "", data)
+
+    parent = data
+    for part in pointer.parts[:-1]:
+        key, parent = _step(parent, part)
+        if parent is UNDEFINED:
+            if isinstance(key, int) or key == "-":
+                raise JSONPointerIndexError(f"index out of range: {key}")
+            raise JSONPointerKeyError(key)
+
+    return (parent, *_step(parent, pointer.parts[-1]))
+
 
 class Op(ABC):
     """One of the JSON Patch operations."""
@@ -58,13 +115,12 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 if target == "-":
@@ -103,13 +159,12 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 parent.append(self.value)
@@ -137,13 +192,12 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 parent.append(self.value)
@@ -172,18 +226,18 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[int(target)]
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[target]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -210,18 +264,18 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[int(target)] = self.value
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[target] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -251,26 +305,26 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_key, source_obj = _resolve_parent(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
         if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
+            del source_parent[int(source_key)]
         if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+            del source_parent[source_key]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_parent(self.dest, data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
+            dest_parent.insert(int(dest_key), source_obj)
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
+            dest_parent[dest_key] = source_obj
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -298,21 +352,21 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _resolve_parent(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_parent(self.dest, data)
 
         if dest_parent is None:
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
+            dest_parent.insert(int(dest_key), copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
+            dest_parent[dest_key] = copy.deepcopy(source_obj)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -340,7 +394,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _resolve_parent(self.path, data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From b9116035935656c884fa9049f367cb00fed65bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 23/60] fix: add, move and copy can insert at the end of an
 array, and no further

---
 jsonpath/patch.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 816a1da..213d1a0 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -84,6 +84,18 @@ def _resolve_parent(
     return (parent, *_step(parent, pointer.parts[-1]))
 
 
+def _insert(
+    parent: MutableSequence[Any], index: Union[int, str], value: object
+) -> None:
+    """Insert _value_ into _parent_ before _index_, or at the end of _parent_."""
+    if index == "-":
+        parent.append(value)
+    elif not 0 <= int(index) <= len(parent):
+        raise JSONPatchError("index out of range")
+    else:
+        parent.insert(int(index), value)
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -115,20 +127,14 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, target, obj = _resolve_parent(self.path, data)
+        parent, target, _ = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(self.value)
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), self.value)
+            _insert(parent, target, self.value)
         elif isinstance(parent, MutableMapping):
             parent[target] = self.value
         else:
@@ -322,7 +328,7 @@ class OpMove(Op):
             return source_obj  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(dest_key), source_obj)
+            _insert(dest_parent, dest_key, source_obj)
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[dest_key] = source_obj
         else:
@@ -364,7 +370,7 @@ class OpCopy(Op):
             return copy.deepcopy(source_obj)  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(dest_key), copy.deepcopy(source_obj))
+            _insert(dest_parent, dest_key, copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[dest_key] = copy.deepcopy(source_obj)
         else:
-- 
2.43.0


From 92cb09b3c3d0761770514925baef886fa3d96a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 24/60] fix: the patch test operation does not identify
 Booleans with numbers

---
 jsonpath/patch.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 213d1a0..d555d9f 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -96,6 +96,21 @@ def _insert(
         parent.insert(int(index), value)
 
 
+def _equal(left: object, right: object) -> bool:
+    """Return _True_ if two JSON values are equal, without mistaking bools for ints."""
+    if isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and _equal(value, right[key]) for key, value in left.items()
+        )
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        return len(left) == len(right) and all(
+            _equal(left_item, right_item) for left_item, right_item in zip(left, right)
+        )
+    return left == right
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -401,7 +416,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, _, obj = _resolve_parent(self.path, data)
-        if not obj == self.value:
+        if not _equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From bf0db2637e237ab13f8b2daf4b70c46560add185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 25/60] fix: applying a patch does not share its values with
 the document

---
 jsonpath/patch.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index d555d9f..dcdca73 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -146,12 +146,12 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
-            _insert(parent, target, self.value)
+            _insert(parent, target, copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -184,15 +184,15 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         return data
 
 
@@ -217,15 +217,15 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -287,16 +287,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, target, obj = _resolve_parent(self.path, data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(target)] = self.value
+            parent[int(target)] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From 94d8baa7499cfb3e771826ddfc1d14f957257c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 26/60] fix: addne differs from add only in leaving existing
 members alone

---
 jsonpath/patch.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index dcdca73..0b8f1a4 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -180,20 +180,10 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, target, obj = _resolve_parent(self.path, data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return copy.deepcopy(self.value)  # type: ignore
-
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(copy.deepcopy(self.value))
-            else:
-                parent.insert(int(target), copy.deepcopy(self.value))
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = copy.deepcopy(self.value)
-        return data
+        parent, _, obj = _resolve_parent(self.path, data)
+        if isinstance(parent, MutableMapping) and obj is not UNDEFINED:
+            return data
+        return super().apply(data)
 
 
 class OpAddAp(OpAdd):
-- 
2.43.0


From ee7e5ca5cbe7870f870deda80b8ae3051a37114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 27/60] fix: a patch document's addap operations are addap
 operations

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 0b8f1a4..12aedff 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -484,7 +484,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From 194cbbb95aebea47cf44283667d2fe420bf8d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 28/60] fix: addap appends however large the index that cannot
 be resolved

---
 jsonpath/patch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 12aedff..f96c67e 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import copy
 import json
 import re
+import sys
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
@@ -48,10 +49,9 @@ def _step(obj: object, part: Union[int, str]) -> Tuple[Union[int, str], object]:
     if isinstance(obj, Sequence) and not isinstance(obj, str):
         index = part
         if isinstance(index, str) and RE_ARRAY_INDEX.match(index):
-            try:
-                index = int(index)
-            except ValueError as err:
-                raise JSONPointerIndexError(f"index out of range: {part}") from err
+            # Python limits the number of digits it will convert to an int. No array has
+            # that many items.
+            index = int(index) if len(index) < 20 else sys.maxsize
         if index == "-":
             return (index, UNDEFINED)
         if isinstance(index, int):
-- 
2.43.0


From fc091133e6b0a190130363b20ed5c2d042e4da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 29/60] fix: an index or slice that is not a canonical integer
 is a syntax or index error

---
 jsonpath/parse.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 7e10e93..b93b0a8 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -15,6 +15,7 @@ from typing import Union
 from jsonpath.function_extensions.filter_function import ExpressionType
 from jsonpath.function_extensions.filter_function import FilterFunction
 
+from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import CURRENT_KEY
@@ -353,20 +354,9 @@ class Parser:
         stream.expect(TOKEN_SLICE_STEP)
         step_token = stream.current
 
-        if not start_token.value:
-            start: Optional[int] = None
-        else:
-            start = int(start_token.value)
-
-        if not stop_token.value:
-            stop: Optional[int] = None
-        else:
-            stop = int(stop_token.value)
-
-        if not step_token.value:
-            step: Optional[int] = None
-        else:
-            step = int(step_token.value)
+        start = self._decode_index(start_token) if start_token.value else None
+        stop = self._decode_index(stop_token) if stop_token.value else None
+        step = self._decode_index(step_token) if step_token.value else None
 
         return SliceSelector(
             env=self.env,
@@ -392,18 +382,11 @@ class Parser:
 
         while stream.current.kind != TOKEN_RBRACKET:
             if stream.current.kind == TOKEN_INT:
-                if (
-                    len(stream.current.value) > 1
-                    and stream.current.value.startswith("0")
-                ) or stream.current.value.startswith("-0"):
-                    raise JSONPathSyntaxError(
-                        "leading zero in index selector", token=stream.current
-                    )
                 list_items.append(
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._decode_index(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -717,6 +700,22 @@ class Parser:
 
         return left
 
+    def _decode_index(self, token: Token) -> int:
+        """Return the index, or slice start, stop or step, that _token_ represents."""
+        if (len(token.value) > 1 and token.value.startswith("0")) or (
+            token.value.startswith("-0")
+        ):
+            raise JSONPathSyntaxError("leading zero in index selector", token=token)
+
+        if not token.value.lstrip("-").isdigit():
+            raise JSONPathSyntaxError(f"invalid index {token.value!r}", token=token)
+
+        try:
+            return int(token.value)
+        except ValueError as err:
+            # Too many digits.
+            raise JSONPathIndexError("index out of range", token=token) from err
+
     def _decode_string_literal(self, token: Token) -> str:
         if self.env.unicode_escape:
             if token.kind == TOKEN_SINGLE_QUOTE_STRING:
-- 
2.43.0


From 0883766d3d1a4dd19ec8164305c5c064d2cf2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 30/60] fix: regular expressions that don't compile are not an
 unexpected error

---
 jsonpath/function_extensions/match.py  |  3 ++-
 jsonpath/function_extensions/search.py |  3 ++-
 jsonpath/parse.py                      | 10 ++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..418587f 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,6 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, re.error, OverflowError, RecursionError, ValueError):
+            # Not a string or not a valid regular expression.
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..57c9133 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,6 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, re.error, OverflowError, RecursionError, ValueError):
+            # Not a string or not a valid regular expression.
             return False
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index b93b0a8..3e9a40a 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -606,13 +606,19 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
+        pattern = tok.value
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(pattern, flags))
+        except (re.error, OverflowError, RecursionError, ValueError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 71063d541fa0bec979f6dbb146aeb99a587201e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 31/60] fix: value-typed function results and literals are not
 tests, wherever they appear

---
 jsonpath/parse.py | 61 ++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 3e9a40a..52e4ef1 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -473,25 +473,7 @@ class Parser:
     def parse_filter(self, stream: TokenStream) -> Filter:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
-
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
-
+        self._raise_for_non_test_expression(expr, tok)
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
     def parse_boolean(self, stream: TokenStream) -> FilterExpression:
@@ -525,10 +507,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_non_test_expression(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -543,18 +524,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_non_test_expression(left, tok)
+            self._raise_for_non_test_expression(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -737,6 +708,26 @@ class Parser:
 
         return token.value
 
+    def _raise_for_non_test_expression(
+        self, expr: FilterExpression, token: Token
+    ) -> None:
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From 9a4ed2dd4e143034cead0a9f68df98b1b2629371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 32/60] fix: <> is an alias for !=

---
 jsonpath/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 52e4ef1..63d1986 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -179,7 +179,7 @@ class Parser:
         TOKEN_GT: ">",
         TOKEN_IN: "in",
         TOKEN_LE: "<=",
-        TOKEN_LG: "<>",
+        TOKEN_LG: "!=",
         TOKEN_LT: "<",
         TOKEN_NE: "!=",
         TOKEN_OR: "||",
-- 
2.43.0


From 0b0be28a2273cedce767314181ae479948624c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 33/60] fix: refuse a trailing comma in function arguments and
 list literals

---
 jsonpath/parse.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 63d1986..db92b1e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -457,11 +457,7 @@ class Parser:
                 stream.expect_peek(TOKEN_COMMA)
                 stream.next_token()
 
-                if stream.peek.kind == TOKEN_RBRACKET:
-                    raise JSONPathSyntaxError(
-                        "unexpected trailing comma",
-                        token=stream.peek,
-                    )
+                self._raise_for_trailing_comma(stream, TOKEN_RBRACKET)
 
             stream.next_token()
 
@@ -607,6 +603,7 @@ class Parser:
             if stream.peek.kind != TOKEN_RBRACKET:
                 stream.expect_peek(TOKEN_COMMA)
                 stream.next_token()
+                self._raise_for_trailing_comma(stream, TOKEN_RBRACKET)
 
             stream.next_token()
 
@@ -639,6 +636,7 @@ class Parser:
             if stream.peek.kind != TOKEN_RPAREN:
                 stream.expect_peek(TOKEN_COMMA)
                 stream.next_token()
+                self._raise_for_trailing_comma(stream, TOKEN_RPAREN)
 
             stream.next_token()
 
@@ -708,6 +706,10 @@ class Parser:
 
         return token.value
 
+    def _raise_for_trailing_comma(self, stream: TokenStream, end: str) -> None:
+        if stream.peek.kind == end:
+            raise JSONPathSyntaxError("unexpected trailing comma", token=stream.peek)
+
     def _raise_for_non_test_expression(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From 0ccf715243810ca536c826c188ac84b97e2fe2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 34/60] fix: and, or and not can be followed by a parenthesis

---
 jsonpath/lex.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index b1eac01..8470575 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -121,6 +121,15 @@ class Lexer:
         # func(
         self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
 
+        # `and`, `or` and `not` are operators, even if followed by a parenthesis.
+        self.logical_pattern = "|".join(
+            (
+                self.logical_not_pattern,
+                self.logical_and_pattern,
+                self.logical_or_pattern,
+            )
+        )
+
         self.rules = self.compile_rules()
 
     def compile_rules(self) -> Pattern[str]:
@@ -141,7 +150,7 @@ class Lexer:
             (TOKEN_SINGLE_QUOTE_STRING, self.single_quote_pattern),
             (TOKEN_RE_PATTERN, self.re_pattern),
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
-            (TOKEN_FUNCTION, self.function_pattern),
+            (TOKEN_FUNCTION, rf"(?!{self.logical_pattern}){self.function_pattern}"),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
             (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
             (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
-- 
2.43.0


From 6dae66e93b509a822bbfa05ba3cb5bb46816e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 35/60] fix: a function name can be a single letter

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8470575..96fe722 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -119,7 +119,7 @@ class Lexer:
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
         # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]*)\(\s*"
 
         # `and`, `or` and `not` are operators, even if followed by a parenthesis.
         self.logical_pattern = "|".join(
-- 
2.43.0


From f88dbd643bc56c3782d2ac3fad47e3c092b116ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 36/60] fix: logical expressions and logical functions are
 accepted as logical arguments

---
 jsonpath/env.py   | 11 ++++++++++-
 jsonpath/parse.py | 11 +++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 9fb4337..8328ee2 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -24,10 +24,12 @@ from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import UNDEFINED
 from .filter import VALUE_TYPE_EXPRESSIONS
+from .filter import BooleanExpression
 from .filter import FilterExpression
 from .filter import FunctionExtension
 from .filter import InfixExpression
 from .filter import Path
+from .filter import PrefixExpression
 from .fluent_api import Query
 from .function_extensions import ExpressionType
 from .function_extensions import FilterFunction
@@ -464,7 +466,14 @@ class JSONPathEnvironment:
                         token=token,
                     )
             elif typ == ExpressionType.LOGICAL:
-                if not isinstance(arg, (Path, InfixExpression)):
+                if not (
+                    isinstance(
+                        arg,
+                        (Path, BooleanExpression, InfixExpression, PrefixExpression),
+                    )
+                    or self._function_return_type(arg)
+                    in (ExpressionType.LOGICAL, ExpressionType.NODES)
+                ):
                     raise JSONPathTypeError(
                         f"{token.value}() argument {idx} must be of LogicalType",
                         token=token,
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index db92b1e..0a666c6 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -282,8 +282,10 @@ class Parser:
             TOKEN_FUNCTION: self.parse_function_extension,
             TOKEN_INT: self.parse_integer_literal,
             TOKEN_KEY: self.parse_current_key,
+            TOKEN_LPAREN: self.parse_grouped_argument,
             TOKEN_NIL: self.parse_nil,
             TOKEN_NONE: self.parse_nil,
+            TOKEN_NOT: self.parse_prefix_expression,
             TOKEN_NULL: self.parse_nil,
             TOKEN_ROOT: self.parse_root_path,
             TOKEN_SELF: self.parse_self_path,
@@ -547,6 +549,15 @@ class Parser:
         stream.expect(TOKEN_RPAREN)
         return expr
 
+    def parse_grouped_argument(self, stream: TokenStream) -> FilterExpression:
+        tok = stream.current
+        expr = self.parse_grouped_expression(stream)
+        if isinstance(expr, (InfixExpression, PrefixExpression)):
+            return expr
+        # A query or function call in parentheses is a test, not a value.
+        self._raise_for_non_test_expression(expr, tok)
+        return BooleanExpression(expr)
+
     def parse_root_path(self, stream: TokenStream) -> FilterExpression:
         root = stream.next_token()
         return RootPath(
-- 
2.43.0


From 05d0f035e857794773330134dba9d6e882cd2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 37/60] fix: in and contains accept operands of any type, and
 tell Booleans from numbers

---
 jsonpath/env.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8328ee2..bc4770e 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -10,6 +10,7 @@ from typing import Any
 from typing import AsyncIterable
 from typing import Callable
 from typing import Dict
+from typing import Hashable
 from typing import Iterable
 from typing import List
 from typing import Mapping
@@ -574,13 +575,25 @@ class JSONPathEnvironment:
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
         if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
+            return self._contains(right, left)
         if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
 
+    def _contains(
+        self, container: Union[Mapping[Any, object], Sequence[object]], item: object
+    ) -> bool:
+        if isinstance(container, str):
+            return isinstance(item, str) and item in container
+
+        if isinstance(container, Mapping):
+            # Names are always hashable, other JSON-like values might not be.
+            return isinstance(item, Hashable) and item in container
+
+        return any(self._eq(item, element) for element in container)
+
     def _eq(self, left: object, right: object) -> bool:  # noqa: PLR0911
         if isinstance(right, NodeList):
             left, right = right, left
-- 
2.43.0


From 2b764c63f051e74a778e099f15b3350d3f5a6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 38/60] fix: lazy intersections don't all use the last
 operand's values

---
 jsonpath/path.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index aaa272f..da6e795 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -386,8 +386,7 @@ class CompoundJSONPath:
                 matches = itertools.chain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                matches = self._intersect(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -455,8 +454,9 @@ class CompoundJSONPath:
                 matches = _achain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                matches = self._intersect_async(
+                    matches, [match.obj async for match in _matches]
+                )
 
         return matches
 
@@ -484,6 +484,21 @@ class CompoundJSONPath:
         """
         return Query(self.finditer(data, filter_context=filter_context), self.env)
 
+    def _intersect(
+        self, matches: Iterable[JSONPathMatch], objs: List[object]
+    ) -> Iterable[JSONPathMatch]:
+        # NOTE: A generator expression in a loop would see _objs_ change.
+        for match in matches:
+            if match.obj in objs:
+                yield match
+
+    async def _intersect_async(
+        self, matches: AsyncIterable[JSONPathMatch], objs: List[object]
+    ) -> AsyncIterable[JSONPathMatch]:
+        async for match in matches:
+            if match.obj in objs:
+                yield match
+
     def union(self, path: JSONPath) -> CompoundJSONPath:
         """Union of this path and another path."""
         return self.__class__(
-- 
2.43.0


From ed550b5660728f7cb46b9172bd7801bb682352d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 39/60] fix: an intersection does not identify Booleans with
 numbers

---
 jsonpath/path.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index da6e795..76d9f4e 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -349,7 +349,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if self._common(obj, _objs)]
 
         return objs
 
@@ -435,7 +435,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if self._common(obj, _objs)]
 
         return objs
 
@@ -484,19 +484,23 @@ class CompoundJSONPath:
         """
         return Query(self.finditer(data, filter_context=filter_context), self.env)
 
+    def _common(self, obj: object, objs: List[object]) -> bool:
+        # Python's `in` operator would mistake Booleans for numbers.
+        return any(self.env.compare(obj, "==", _obj) for _obj in objs)
+
     def _intersect(
         self, matches: Iterable[JSONPathMatch], objs: List[object]
     ) -> Iterable[JSONPathMatch]:
         # NOTE: A generator expression in a loop would see _objs_ change.
         for match in matches:
-            if match.obj in objs:
+            if self._common(match.obj, objs):
                 yield match
 
     async def _intersect_async(
         self, matches: AsyncIterable[JSONPathMatch], objs: List[object]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if match.obj in objs:
+            if self._common(match.obj, objs):
                 yield match
 
     def union(self, path: JSONPath) -> CompoundJSONPath:
-- 
2.43.0


From e26a9ea527405d32d598958cc4af8e24b08f3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 40/60] fix: a compound query can read its document from a file

---
 jsonpath/path.py | 80 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 76d9f4e..05807ef 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -341,17 +341,9 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if self._common(obj, _objs)]
-
-        return objs
+        return [
+            match.obj for match in self.finditer(data, filter_context=filter_context)
+        ]
 
     def finditer(
         self,
@@ -378,10 +370,22 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        # Load data just once, it could be a file.
+        _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context)
+
+    def resolve(
+        self,
+        obj: Any,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate a match for each node selected by this path, starting at _obj_."""
+        matches = self.path.resolve(obj, root=root, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path.resolve(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
@@ -427,17 +431,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token
-                objs = [obj for obj in objs if self._common(obj, _objs)]
-
-        return objs
+        return [
+            match.obj
+            async for match in await self.finditer_async(
+                data, filter_context=filter_context
+            )
+        ]
 
     async def finditer_async(
         self,
@@ -446,10 +445,39 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        _data = load_data(data)
+        return await self._resolve_async(
+            _data, root=_data, filter_context=filter_context
+        )
+
+    async def resolve_async(
+        self,
+        obj: Any,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
+        async for match in await self._resolve_async(
+            obj, root=root, filter_context=filter_context
+        ):
+            yield match
+
+    async def _resolve_async(
+        self,
+        obj: Any,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> AsyncIterable[JSONPathMatch]:
+        matches = self.path.resolve_async(
+            obj, root=root, filter_context=filter_context
+        )
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = path.resolve_async(
+                obj, root=root, filter_context=filter_context
+            )
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
-- 
2.43.0


From 1709ffb5cb78f4cd4663216062c161e73e7712a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 41/60] fix: a query that exceeds Python's recursion limit is a
 JSONPath error

---
 jsonpath/env.py  |  7 +++++++
 jsonpath/path.py | 45 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index bc4770e..5e69306 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -20,6 +20,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from .exceptions import JSONPathError
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -181,6 +182,12 @@ class JSONPathEnvironment:
             JSONPathTypeError: If filter functions are given arguments of an
                 unacceptable type.
         """
+        try:
+            return self._compile(path)
+        except RecursionError as err:
+            raise JSONPathError("the query is too complex") from err
+
+    def _compile(self, path: str) -> Union[JSONPath, CompoundJSONPath]:
         tokens = self.lexer.tokenize(path)
         stream = TokenStream(tokens)
         fake_root = stream.current.kind == TOKEN_FAKE_ROOT
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 05807ef..569fc4e 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -15,6 +15,7 @@ from typing import TypeVar
 from typing import Union
 
 from jsonpath._data import load_data
+from jsonpath.exceptions import JSONPathError
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
 from jsonpath.match import JSONPathMatch
@@ -29,6 +30,26 @@ if TYPE_CHECKING:
     from .selectors import JSONPathSelector
 
 
+_TOO_COMPLEX = "the query, or the data it is applied to, is too complex"
+
+
+def _iterate(matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
+    try:
+        yield from matches
+    except RecursionError as err:
+        raise JSONPathError(_TOO_COMPLEX) from err
+
+
+async def _iterate_async(
+    matches: AsyncIterable[JSONPathMatch],
+) -> AsyncIterable[JSONPathMatch]:
+    try:
+        async for match in matches:
+            yield match
+    except RecursionError as err:
+        raise JSONPathError(_TOO_COMPLEX) from err
+
+
 class JSONPath:
     """A compiled JSONPath ready to be applied to a JSON string or Python object.
 
@@ -125,7 +146,7 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
-        return self.resolve(_data, root=_data, filter_context=filter_context)
+        return _iterate(self.resolve(_data, root=_data, filter_context=filter_context))
 
     def resolve(
         self,
@@ -181,7 +202,9 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
-        return self.resolve_async(_data, root=_data, filter_context=filter_context)
+        return _iterate_async(
+            self.resolve_async(_data, root=_data, filter_context=filter_context)
+        )
 
     def resolve_async(
         self,
@@ -372,7 +395,12 @@ class CompoundJSONPath:
         """
         # Load data just once, it could be a file.
         _data = load_data(data)
-        return self.resolve(_data, root=_data, filter_context=filter_context)
+        try:
+            return _iterate(
+                self.resolve(_data, root=_data, filter_context=filter_context)
+            )
+        except RecursionError as err:
+            raise JSONPathError(_TOO_COMPLEX) from err
 
     def resolve(
         self,
@@ -446,9 +474,14 @@ class CompoundJSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
-        return await self._resolve_async(
-            _data, root=_data, filter_context=filter_context
-        )
+        try:
+            return _iterate_async(
+                await self._resolve_async(
+                    _data, root=_data, filter_context=filter_context
+                )
+            )
+        except RecursionError as err:
+            raise JSONPathError(_TOO_COMPLEX) from err
 
     async def resolve_async(
         self,
-- 
2.43.0


From ce8058b1531e3a8061d0e14b8788b85bbfd4c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 42/60] fix: a # pointer token that is not an index does not
 raise ValueError

---
 jsonpath/pointer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 95bcbe6..d5dedba 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -154,12 +154,13 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
-                    if _index >= len(obj):
-                        raise JSONPointerIndexError(
-                            f"index out of range: {_index}"
-                        ) from err
-                    return _index
+                    _index = self._index(key[1:])
+                    if isinstance(_index, int):
+                        if _index >= len(obj):
+                            raise JSONPointerIndexError(
+                                f"index out of range: {_index}"
+                            ) from err
+                        return _index
                 # Try int index. Reject non-zero ints that start with a zero.
                 if isinstance(key, str):
                     index = self._index(key)
-- 
2.43.0


From eef28c6152790badfbba16f12fa39dcbdc446dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 43/60] fix: patch builder methods refuse malformed pointers
 with a patch error

---
 jsonpath/patch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index f96c67e..93cba23 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -548,11 +548,14 @@ class JSONPatch:
 
     def _ensure_pointer(self, path: Union[str, JSONPointer]) -> JSONPointer:
         if isinstance(path, str):
-            return JSONPointer(
-                path,
-                unicode_escape=self.unicode_escape,
-                uri_decode=self.uri_decode,
-            )
+            try:
+                return JSONPointer(
+                    path,
+                    unicode_escape=self.unicode_escape,
+                    uri_decode=self.uri_decode,
+                )
+            except JSONPointerError as err:
+                raise JSONPatchError(str(err)) from err
         assert isinstance(path, JSONPointer)
         return path
 
-- 
2.43.0


From 8d6982a857651a964d2aa607d536707e56cea814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 44/60] fix: an index offset whose result has too many digits
 is a relative pointer error

---
 jsonpath/pointer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index d5dedba..3d245a0 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -599,11 +599,17 @@ class RelativeJSONPointer:
                     "can't apply an index offset to something that is not an index"
                 )
             new_index = int(parts[-1]) + self.index
+            try:
+                parts[-1] = str(new_index)
+            except ValueError as err:
+                # Python limits the number of digits in an int's string form.
+                raise RelativeJSONPointerIndexError(
+                    "index offset out of range"
+                ) from err
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
                     f"index offset out of range {new_index}"
                 )
-            parts[-1] = int(parts[-1]) + self.index
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 6910002f4a0ab188e3522112f8ed7a84c5cffac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 45/60] fix: the string form of a query keeps its leading
 identifier

The fake root identifier was always replaced by the root identifier, and
the string form of an embedded query assumed default identifiers.
---
 jsonpath/filter.py | 8 +++++---
 jsonpath/path.py   | 9 ++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index d3fcba0..1b6d7a6 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -532,7 +532,7 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        return self.path.env.self_token + self.path._selectors_string()  # noqa: SLF001
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
@@ -604,8 +604,10 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        return (
+            self.path.env.filter_context_token
+            + self.path._selectors_string()  # noqa: SLF001
+        )
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 569fc4e..f67b85f 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -80,9 +80,12 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + self._selectors_string()
+
+    def _selectors_string(self) -> str:
+        """Return the string form of this query without its leading identifier."""
+        return "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 28cfd60a00d60767d11bbfc50717f466adabe3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 46/60] fix: a slice outside brackets is written in brackets

`$.a 1:2` had the string form `$['a']1:2:1`, and identifiers that
are words, like `_`, ran into the start of the slice.
---
 jsonpath/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index f67b85f..038bad8 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -22,6 +22,7 @@ from jsonpath.match import JSONPathMatch
 from jsonpath.selectors import IndexSelector
 from jsonpath.selectors import ListSelector
 from jsonpath.selectors import PropertySelector
+from jsonpath.selectors import SliceSelector
 
 if TYPE_CHECKING:
     from io import IOBase
@@ -85,7 +86,10 @@ class JSONPath:
 
     def _selectors_string(self) -> str:
         """Return the string form of this query without its leading identifier."""
-        return "".join(str(selector) for selector in self.selectors)
+        return "".join(
+            f"[{selector}]" if isinstance(selector, SliceSelector) else str(selector)
+            for selector in self.selectors
+        )
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 9f9b86742cb322e03f32885558a41f1dad976af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 47/60] fix: the string form of a filter keeps the grouping of
 its operands

Parentheses were lost around negated comparisons, and around comparisons,
tests and logical expressions that are operands or function arguments.
---
 jsonpath/filter.py | 20 +++++++++++++++++---
 jsonpath/parse.py  |  5 ++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 1b6d7a6..a160207 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -275,6 +275,16 @@ class ListLiteral(FilterExpression):
         self.items = children
 
 
+def _operand_string(expr: FilterExpression) -> str:
+    """Return _expr_ as a string suitable for use as an operand or an argument."""
+    if isinstance(expr, BooleanExpression) or (
+        isinstance(expr, InfixExpression) and not expr.logical
+    ):
+        return f"({expr})"
+    # The string form of a logical expression is already in parentheses.
+    return str(expr)
+
+
 class PrefixExpression(FilterExpression):
     """An expression composed of a prefix operator and another expression."""
 
@@ -286,7 +296,7 @@ class PrefixExpression(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        return f"{self.operator}{self.right}"
+        return f"{self.operator}{_operand_string(self.right)}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -334,7 +344,8 @@ class InfixExpression(FilterExpression):
     def __str__(self) -> str:
         if self.logical:
             return f"({self.left} {self.operator} {self.right})"
-        return f"{self.left} {self.operator} {self.right}"
+        left, right = _operand_string(self.left), _operand_string(self.right)
+        return f"{left} {self.operator} {right}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -441,6 +452,9 @@ class BooleanExpression(FilterExpression):
                     f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_OR else expr
                 )
 
+            if parent_precedence >= PRECEDENCE_PREFIX:
+                return f"({expression})"
+
         if isinstance(expression, PrefixExpression):
             operand = self._canonical_string(expression.right, PRECEDENCE_PREFIX)
             expr = f"!{operand}"
@@ -642,7 +656,7 @@ class FunctionExtension(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        args = [str(arg) for arg in self.args]
+        args = [_operand_string(arg) for arg in self.args]
         return f"{self.name}({', '.join(args)})"
 
     def __eq__(self, other: object) -> bool:
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 0a666c6..d8ac966 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -552,7 +552,10 @@ class Parser:
     def parse_grouped_argument(self, stream: TokenStream) -> FilterExpression:
         tok = stream.current
         expr = self.parse_grouped_expression(stream)
-        if isinstance(expr, (InfixExpression, PrefixExpression)):
+        if (
+            isinstance(expr, (InfixExpression, PrefixExpression))
+            or stream.peek.kind in self.BINARY_OPERATORS
+        ):
             return expr
         # A query or function call in parentheses is a test, not a value.
         self._raise_for_non_test_expression(expr, tok)
-- 
2.43.0


From e58f7ee6cfe5f5fcebad69d02bc4184a3618942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 48/60] fix: the string form of a float literal is a float
 literal

Infinity was written as `inf`, and floats with a whole mantissa and an
exponent as integer literals.
---
 jsonpath/filter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index a160207..0a6214e 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -222,6 +223,16 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            # There is no literal for infinity, only numbers that are too big.
+            return "1.0e999" if self.value > 0 else "-1.0e999"
+        mantissa, e, exponent = repr(self.value).partition("e")
+        if e and "." not in mantissa:
+            # Without a fraction, this would be an integer literal.
+            mantissa += ".0"
+        return mantissa + e + exponent
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
-- 
2.43.0


From cf5e6fa60d38e5c51da1ed76effa4927fca938ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 49/60] fix: documents can be read from file objects that are
 not instances of IOBase

A tempfile.NamedTemporaryFile, for example, was taken to be a JSON value.
---
 jsonpath/_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..ca2dab0 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -16,6 +18,10 @@ def load_data(data: object) -> Any:
             if _RE_PROBABLY_MALFORMED.search(data):
                 raise
             return data
-    if isinstance(data, IOBase):
-        return json.loads(data.read())
+    if isinstance(data, IOBase) or (
+        # Some file objects, temporary files for example, are not instances of IOBase.
+        callable(getattr(data, "read", None))
+        and not isinstance(data, (Mapping, Sequence))
+    ):
+        return json.loads(data.read())  # type: ignore
     return data
-- 
2.43.0


From cc0e515aadad3ddbff0bde6fe0d51b4457d56c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 50/60] fix: query iterators accept counts larger than
 sys.maxsize

---
 jsonpath/fluent_api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..5b86db9 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import collections
 import itertools
+import sys
 from enum import Enum
 from enum import auto
 from typing import TYPE_CHECKING
@@ -70,7 +71,7 @@ class Query:
         if n < 0:
             raise ValueError("can't limit by a negative number of matches")
 
-        self._it = itertools.islice(self._it, n)
+        self._it = itertools.islice(self._it, min(n, sys.maxsize))
         return self
 
     def head(self, n: int) -> Query:
@@ -103,6 +104,7 @@ class Query:
             raise ValueError("can't drop a negative number of matches")
 
         if n > 0:
+            n = min(n, sys.maxsize)
             next(itertools.islice(self._it, n, n), None)
 
         return self
@@ -124,7 +126,7 @@ class Query:
         if n < 0:
             raise ValueError("can't select a negative number of matches")
 
-        self._it = iter(collections.deque(self._it, maxlen=n))
+        self._it = iter(collections.deque(self._it, maxlen=min(n, sys.maxsize)))
         return self
 
     def last(self, n: int) -> Query:
@@ -186,7 +188,7 @@ class Query:
 
         It is safe to continue using this query after calling take.
         """
-        return Query(list(itertools.islice(self._it, n)), self._env)
+        return Query(list(itertools.islice(self._it, min(n, sys.maxsize))), self._env)
 
     def select(
         self,
-- 
2.43.0


From d080754af1ee5d9ebe408d2822aaef2d64a421f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 51/60] fix: in and contains accept operands with unhashable
 items

---
 jsonpath/env.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 5e69306..499c1cd 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -10,7 +10,6 @@ from typing import Any
 from typing import AsyncIterable
 from typing import Callable
 from typing import Dict
-from typing import Hashable
 from typing import Iterable
 from typing import List
 from typing import Mapping
@@ -596,8 +595,11 @@ class JSONPathEnvironment:
             return isinstance(item, str) and item in container
 
         if isinstance(container, Mapping):
-            # Names are always hashable, other JSON-like values might not be.
-            return isinstance(item, Hashable) and item in container
+            try:
+                return item in container
+            except TypeError:
+                # Names are always hashable, other JSON-like values might not be.
+                return False
 
         return any(self._eq(item, element) for element in container)
 
-- 
2.43.0


From 301b079cd6ddf011157081a10cb8d97ec3146bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 52/60] fix: the string form of the current key identifier uses
 the environment's token

---
 jsonpath/filter.py | 7 ++++---
 jsonpath/parse.py  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0a6214e..e85e7f3 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -739,14 +739,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
         super().__init__()
+        self.token = token
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index d8ac966..ef41d90 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -18,12 +18,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -578,7 +578,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From f584cb1f392e9e3878a6e842b18ff08a2b7a22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 53/60] fix: the path command reads its query from a file

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From 06152958e044da87c43316673ab5225bc29ef63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 54/60] fix: the path command reports name errors and errors
 from evaluating a query

---
 jsonpath/cli.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..d07ed5a 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,7 +6,9 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
+from jsonpath.exceptions import JSONPathNameError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
 from jsonpath.exceptions import JSONPointerError
@@ -264,6 +266,16 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathNameError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path name error: {err}\n")
+        sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +290,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From 6b0df7bdf8dcda696e01b91f34a4265e25f54fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 55/60] fix: the command line tool reports undecodable
 documents without a traceback

---
 jsonpath/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index d07ed5a..68121ac 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -15,6 +15,10 @@ from jsonpath.exceptions import JSONPointerError
 
 INDENT = 2
 
+# JSON that is malformed (JSONDecodeError), is not properly encoded (UnicodeDecodeError),
+# has an integer that is too long (ValueError) or is too deeply nested.
+_DECODE_ERRORS = (ValueError, RecursionError)
+
 
 def path_sub_command(parser: argparse.ArgumentParser) -> None:  # noqa: D103
     parser.set_defaults(func=handle_path_command)
@@ -279,7 +283,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except _DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -316,7 +320,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except _DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -335,7 +339,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except _DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -354,7 +358,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except _DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From b2ec3027a0a158fa23c36dd25d4c3ab5169bb0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 56/60] fix: pointer and patch errors are reported on one line

---
 jsonpath/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 68121ac..680b37c 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -328,7 +328,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(" ".join(str(err).splitlines()) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -366,7 +366,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(" ".join(str(err).splitlines()) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-- 
2.43.0


From bd3445c4f509deda6490e8e486226fe4d318e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 57/60] fix: white space that is part of an expression is kept
 when reading it from a file

---
 jsonpath/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 680b37c..ab5efc1 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -248,7 +248,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.path_file.read().strip()
+        query = args.path_file.read().strip(" \t\n\r")
 
     try:
         path = jsonpath.JSONPathEnvironment(
@@ -310,8 +310,11 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     if args.pointer is not None:
         pointer = args.pointer
     else:
-        # TODO: is a property with a trailing newline OK?
-        pointer = args.pointer_file.read().strip()
+        pointer = args.pointer_file.read()
+        # White space is significant in a pointer, except for the newline that
+        # ends the file.
+        if pointer.endswith("\n"):
+            pointer = pointer[:-1]
 
     try:
         match = jsonpath.pointer.resolve(
-- 
2.43.0


From d2d02688aad9bd522fdf900d2d10bdc4d6a78ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 58/60] fix: deeply nested results can be written by the
 command line tool

---
 jsonpath/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index ab5efc1..5edc3d2 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -301,7 +301,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(matches, args.output, indent=indent)
+    args.output.write(json.dumps(matches, indent=indent))
 
 
 def handle_pointer_command(args: argparse.Namespace) -> None:
@@ -335,7 +335,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(match, args.output, indent=indent)
+    args.output.write(json.dumps(match, indent=indent))
 
 
 def handle_patch_command(args: argparse.Namespace) -> None:
@@ -373,7 +373,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(patched, args.output, indent=indent)
+    args.output.write(json.dumps(patched, indent=indent))
 
 
 def main() -> None:
-- 
2.43.0


From 3d7ac050fa628519fa1182379e81a16857071f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 59/60] fix: the path command reports type errors raised by
 functions without type checks

---
 jsonpath/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 5edc3d2..2c947a0 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -288,8 +288,8 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
         sys.exit(1)
-    except JSONPathTypeError as err:
-        # Type errors are currently only occurring are compile-time.
+    except (JSONPathTypeError, TypeError) as err:
+        # Filter functions get to see arguments of any type with --no-type-checks.
         if args.debug:
             raise
         sys.stderr.write(f"json path type error: {err}\n")
-- 
2.43.0


From 74129275d0e744647af5d5a34dd2113adf3c0cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 60/60] fix: projection does not modify the document when
 selections overlap

---
 jsonpath/fluent_api.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 5b86db9..acae2af 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -225,7 +225,7 @@ class Query:
             return None
 
         if projection == Projection.RELATIVE:
-            obj: Dict[Union[int, str], Any] = {}
+            obj = _SparseObject()
             for expr in expressions:
                 path = self._env.compile(expr) if isinstance(expr, str) else expr
                 for rel_match in path.finditer(match.obj):  # type: ignore
@@ -242,7 +242,7 @@ class Query:
             return arr
 
         # Project from the root document
-        obj = {}
+        obj = _SparseObject()
         for expr in expressions:
             path = self._env.compile(expr) if isinstance(expr, str) else expr
             for rel_match in path.finditer(match.obj):  # type: ignore
@@ -251,9 +251,13 @@ class Query:
         return _fix_sparse_arrays(obj)
 
 
+class _SparseObject(Dict[Union[int, str], Any]):
+    """An array or object on the path to a selected value, as opposed to a value."""
+
+
 def _patch_obj(
     parts: Tuple[Union[int, str], ...],
-    obj: Mapping[Union[str, int], Any],
+    obj: _SparseObject,
     value: object,
 ) -> None:
     _obj = obj
@@ -265,11 +269,12 @@ def _patch_obj(
     #
     # We'll fix these "sparse arrays" after the patch has been applied.
     for part in parts[:-1]:
-        if part not in _obj:
-            _obj[part] = {}  # type: ignore
-        _obj = _obj[part]
+        _obj = _obj.setdefault(part, _SparseObject())
+        if not isinstance(_obj, _SparseObject):
+            # An array or object containing this value has been selected already.
+            return
 
-    _obj[parts[-1]] = value  # type: ignore
+    _obj[parts[-1]] = value
 
 
 def _fix_sparse_arrays(obj: Any) -> object:
-- 
2.43.0

