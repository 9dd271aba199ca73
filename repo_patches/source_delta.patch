From e2b0290398b6c975a79e2978e28e38ec13796a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 1/6] fix: do not reuse a stale location when a position equals
 Loc.pos

For token streams Loc.pos is an offset in the source text, not an index in
the stream, so update_loc() could keep an unrelated location (always for the
first token) and layout combinators compared wrong columns.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From 94c0bfc150722c64224dbf5b61803997f6c52b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 2/6] fix: keep expected labels of a parser wrapped in
 recover_with

When no repair could be completed, the error was reported as "unexpected
input" instead of what the wrapped parser expected.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From 6f9be6a707930f1ae18ce7f96573a22be058bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 3/6] fix: attempt() does not consume input on failure when
 recovering

With error recovery enabled a failure that could not be repaired was reported
as if input had been consumed, so e.g. recover_with() was not applied.
---
 src/reparsec/core/combinators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..3dc9de1 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -395,9 +395,11 @@ def _attempt(parse_fns: ParseFns[S, A]) -> ParseFn[S, A]:
     def attempt(
             stream: S, pos: int, ctx: Ctx[S], ins: int,
             rem: Optional[int]) -> Result[A, S]:
+        r: Result[A, S]
         if rem is not None:
-            return parse_fn(stream, pos, ctx, ins, rem)
-        r = parse_fast_fn(stream, pos, ctx)
+            r = parse_fn(stream, pos, ctx, ins, rem)
+        else:
+            r = parse_fast_fn(stream, pos, ctx)
         if type(r) is Error:
             return Error(r.loc, r.expected)
         return r
-- 
2.43.0


From 51c6ab135c66d7870d1825f7fc63c46ffad427b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 4/6] fix: raise LexError on empty matches instead of looping
 forever

---
 src/reparsec/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..21daaa9 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -57,7 +57,7 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
     src_len = len(src)
     while pos < src_len:
         match = spec.match(src, pos=pos)
-        if match is None:
+        if match is None or match.end() == pos:
             raise LexError(loc)
 
         end = match.end()
-- 
2.43.0


From c0513d3abf31e0cecc15232c591628304a7d4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 5/6] fix: many keeps the expected labels of its last item

An item that ends in an optional part can be continued by that part, but
many reported only what could start the next item. The first item of
sep_by and an item after a repair already kept them.
---
 src/reparsec/core/combinators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 3dc9de1..36395b3 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -335,7 +335,7 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
-            r = parse_fn(stream, pos, ctx)
+            r = parse_fn(stream, pos, ctx).prepend_expected(r.expected, False)
         if r.consumed:
             return r
         return Ok(value, pos, ctx, r.expected, consumed)
@@ -359,7 +359,9 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
-            r = parse_fn(stream, pos, ctx, ins, None)
+            r = parse_fn(
+                stream, pos, ctx, ins, None
+            ).prepend_expected(r.expected, False)
         if type(r) is Recovered:
             return continue_parse(
                 r, ins, lambda _, p, c, __: many(stream, p, c, ins, None),
-- 
2.43.0


From 1323187b6e18c066377600091f7c42da21750f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 6/6] fix: Delay.define changes nothing if the definition
 cannot be used

The parser was marked as defined before its definition was obtained: an
argument that is not a parser left it neither usable nor definable, and a
thread that built with it meanwhile kept the undefined functions for good.
---
 src/reparsec/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/parser.py b/src/reparsec/parser.py
index 557b00e..c62bc46 100644
--- a/src/reparsec/parser.py
+++ b/src/reparsec/parser.py
@@ -787,8 +787,8 @@ class Delay(TupleParser[S_contra, A_co]):
 
         if self._defined:
             raise RuntimeError("Delayed parser was already defined")
-        self._defined = True
         self._fns = parser.to_fns()
+        self._defined = True
 
     def parse_fast_fn(
             self, stream: S_contra, pos: int,
-- 
2.43.0

