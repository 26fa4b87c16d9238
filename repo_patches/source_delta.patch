From afcf81368f3c1d8878610918c025eacbf7baddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 01/34] fix: chainr1 no longer swallows an operator without a
 right operand

After the operator succeeded and the right operand failed without consuming
input chainr1 reset to *after* the operator and returned success. It now fails
if the operator committed input and otherwise resets to before the operator,
as chainl1 does.
---
 src/parser/repeat.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..4bbe38f 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1084,25 +1084,27 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
-                }
+            let (op, op_committed) = match self.1.parse_lazy(input).into_result() {
+                Ok(x) => x,
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self
+                .parse_committed_mode(FirstMode, input, &mut ())
+                .into()
+            {
                 Ok((r, rest)) => {
                     l = op(l, r);
-                    committed = committed.merge(rest);
+                    committed = committed.merge(op_committed).merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                Err(Commit::Peek(err)) => {
+                    if !op_committed.is_peek() {
+                        return CommitErr(err.error);
+                    }
                     ctry!(input.reset(before).committed());
                     break;
                 }
-- 
2.43.0


From 66435382656fb14c524a193dce860685afe34689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 02/34] fix: escaped backtracks its normal-character parser and
 reports consumed escapes

A token parser which failed without committing had already taken the token
from the stream, so escaped dropped it. An escape followed by an escape parser
that consumes nothing was also reported as not having consumed input.
---
 src/parser/repeat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 4bbe38f..15334e6 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1396,13 +1396,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
                             match self.escape_parser.parse_committed_mode(
@@ -1410,8 +1411,7 @@ where
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
+                                PeekOk(_) | CommitOk(_) => {
                                     committed = Commit::Commit(());
                                 }
                                 CommitErr(err) => return CommitErr(err),
-- 
2.43.0


From cbf442cc0b424ca21a65085305b14365746e6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 03/34] fix: parsers without partial state start over when they
 need more input

tokens, string, bytes, parser functions, chainr1, escaped, parser! without a
PartialState (and thereby count and length_prefix) consume input before
noticing that a partial input ran out, but store nothing which lets them
resume. Reset the input so that they are retried from where they started.
---
 src/lib.rs        |  4 +---
 src/parser/mod.rs | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..8d0e598 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -403,9 +403,7 @@ macro_rules! parser {
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
         let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        $crate::parser::parse_mode_without_state($mode, &mut $parser, $input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..58148fd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -258,7 +258,20 @@ pub trait Parser<Input: Stream> {
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error> {
         let _ = state;
-        self.parse_lazy(input)
+        if input.is_partial() {
+            // Nothing is stored in `state` so if more input is needed the parser has to start over
+            // from the same position once it is available
+            let before = input.checkpoint();
+            let result = self.parse_lazy(input);
+            if let CommitErr(ref error) = result {
+                if error.is_unexpected_end_of_input() {
+                    ctry!(input.reset(before).committed());
+                }
+            }
+            result
+        } else {
+            self.parse_lazy(input)
+        }
     }
 
     /// Internal API. May break without a semver bump
@@ -1207,3 +1220,33 @@ impl ParseMode for PartialMode {
         }
     }
 }
+
+/// Parses with `parser` without storing its partial state. As the parser is unable to resume it has
+/// to start over from the same position if it needs more input.
+///
+/// Internal API. May break without a semver bump
+#[doc(hidden)]
+#[inline]
+pub fn parse_mode_without_state<M, Input, P>(
+    mode: M,
+    parser: &mut P,
+    input: &mut Input,
+) -> ParseResult<P::Output, Input::Error>
+where
+    M: ParseMode,
+    Input: Stream,
+    P: Parser<Input>,
+{
+    if input.is_partial() {
+        let before = input.checkpoint();
+        let result = parser.parse_mode(mode, input, &mut Default::default());
+        if let CommitErr(ref error) = result {
+            if error.is_unexpected_end_of_input() {
+                ctry!(input.reset(before).committed());
+            }
+        }
+        result
+    } else {
+        parser.parse_mode(mode, input, &mut Default::default())
+    }
+}
-- 
2.43.0


From 26022f728d5c1ef0806717948575508d8aaab6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 04/34] fix: eof needs more input at the end of a partial chunk

---
 src/parser/token.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..205ed33 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -660,7 +660,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
-            Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
+            Err(err) if err.is_unexpected_end_of_input() => {
+                if input.is_partial() {
+                    // More input may follow so we can't tell if this is the end yet
+                    crate::stream::wrap_stream_error(input, err)
+                } else {
+                    PeekOk(())
+                }
+            }
             _ => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
-- 
2.43.0


From 081d5d1ebf76ddd4bb0c2a4bd1a4a0e5d45249de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 05/34] fix: not_followed_by resets its parser's state and
 waits for more partial input

---
 src/parser/combinator.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..0e98650 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,19 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                // The input is reset so `parser` must not resume from where it failed
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => {
+                *state = Default::default();
+                PeekOk(())
+            }
         }
     }
 
-- 
2.43.0


From 3c7753dfe9bdef8c3b45156b44963d75cdf69ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 06/34] fix: no_partial starts over when its parser needs more
 input

---
 src/parser/combinator.rs |  2 +-
 src/parser/mod.rs        | 65 +++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 0e98650..d39717e 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -670,7 +670,7 @@ where
     where
         M: ParseMode,
     {
-        self.0.parse_lazy(input)
+        crate::parser::parse_lazy_without_state(&mut self.0, input)
     }
 
     forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 58148fd..0d59bc4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -258,20 +258,7 @@ pub trait Parser<Input: Stream> {
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error> {
         let _ = state;
-        if input.is_partial() {
-            // Nothing is stored in `state` so if more input is needed the parser has to start over
-            // from the same position once it is available
-            let before = input.checkpoint();
-            let result = self.parse_lazy(input);
-            if let CommitErr(ref error) = result {
-                if error.is_unexpected_end_of_input() {
-                    ctry!(input.reset(before).committed());
-                }
-            }
-            result
-        } else {
-            self.parse_lazy(input)
-        }
+        parse_lazy_without_state(self, input)
     }
 
     /// Internal API. May break without a semver bump
@@ -1221,25 +1208,19 @@ impl ParseMode for PartialMode {
     }
 }
 
-/// Parses with `parser` without storing its partial state. As the parser is unable to resume it has
-/// to start over from the same position if it needs more input.
-///
-/// Internal API. May break without a semver bump
-#[doc(hidden)]
+/// Nothing is stored in any partial state by `parse` so if it needs more input it has to start over
+/// from the same position once more input is available
 #[inline]
-pub fn parse_mode_without_state<M, Input, P>(
-    mode: M,
-    parser: &mut P,
+fn without_state<Input, O>(
     input: &mut Input,
-) -> ParseResult<P::Output, Input::Error>
+    parse: impl FnOnce(&mut Input) -> ParseResult<O, Input::Error>,
+) -> ParseResult<O, Input::Error>
 where
-    M: ParseMode,
     Input: Stream,
-    P: Parser<Input>,
 {
     if input.is_partial() {
         let before = input.checkpoint();
-        let result = parser.parse_mode(mode, input, &mut Default::default());
+        let result = parse(input);
         if let CommitErr(ref error) = result {
             if error.is_unexpected_end_of_input() {
                 ctry!(input.reset(before).committed());
@@ -1247,6 +1228,36 @@ where
         }
         result
     } else {
-        parser.parse_mode(mode, input, &mut Default::default())
+        parse(input)
     }
 }
+
+#[inline]
+pub(crate) fn parse_lazy_without_state<Input, P>(
+    parser: &mut P,
+    input: &mut Input,
+) -> ParseResult<P::Output, Input::Error>
+where
+    Input: Stream,
+    P: Parser<Input> + ?Sized,
+{
+    without_state(input, |input| parser.parse_lazy(input))
+}
+
+/// Internal API. May break without a semver bump
+#[doc(hidden)]
+#[inline]
+pub fn parse_mode_without_state<M, Input, P>(
+    mode: M,
+    parser: &mut P,
+    input: &mut Input,
+) -> ParseResult<P::Output, Input::Error>
+where
+    M: ParseMode,
+    Input: Stream,
+    P: Parser<Input>,
+{
+    without_state(input, |input| {
+        parser.parse_mode(mode, input, &mut Default::default())
+    })
+}
-- 
2.43.0


From 7a45aa6d9bd842bf1e29788bc418dfa0120f9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 07/34] fix: attempt keeps partial input available until its
 parser is done

---
 src/parser/combinator.rs | 29 +++++++++++++++++++++++++----
 src/stream/mod.rs        | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index d39717e..641469c 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -8,7 +8,9 @@ use crate::{
     },
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
-    stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
+    stream::{
+        input_at_eof, rewind, skip_tokens, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce,
+    },
     Parser,
 };
 
@@ -106,7 +108,8 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    // How many tokens `P` had consumed when it ran out of input and its state at that point
+    type PartialState = (usize, P::PartialState);
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -137,12 +140,30 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
-            v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
+        let (ref mut consumed, ref mut child_state) = *state;
+
+        let before = input.checkpoint();
+        if !mode.is_first() {
+            ctry!(skip_tokens(input, *consumed).committed());
+        }
+
+        match self.0.parse_committed_mode(mode, input, child_state) {
+            v @ CommitOk(_) | v @ PeekOk(_) => {
+                *consumed = 0;
+                v
+            }
+            PeekErr(err) => {
+                *state = Default::default();
+                PeekErr(err)
+            }
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // `parser` may still fail once there is more input in which case everything
+                    // it has parsed must remain available in the input
+                    *consumed = ctry!(rewind(input, before).committed()).0;
                     CommitErr(err)
                 } else {
+                    *state = Default::default();
                     PeekErr(err.into())
                 }
             }
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..b46f67f 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -258,6 +258,46 @@ where
     }
 }
 
+/// Advances `input` by `count` tokens
+#[inline]
+pub(crate) fn skip_tokens<Input>(input: &mut Input, count: usize) -> Result<(), Input::Error>
+where
+    Input: ?Sized + StreamOnce + Positioned,
+{
+    for _ in 0..count {
+        if let Err(err) = input.uncons() {
+            return Err(Input::Error::from_error(input.position(), err));
+        }
+    }
+    Ok(())
+}
+
+/// Resets `input` to `before`. If more input may follow, so that whatever moved the input may want to
+/// resume, it returns how many tokens the input was moved.
+pub(crate) fn rewind<Input>(
+    input: &mut Input,
+    before: Input::Checkpoint,
+) -> Result<usize, Input::Error>
+where
+    Input: ?Sized + Stream,
+{
+    let mut count = 0;
+    if !input.is_partial() {
+        input.reset(before)?;
+        return Ok(count);
+    }
+
+    let end = input.position();
+    input.reset(before.clone())?;
+    while input.position() != end {
+        skip_tokens(input, 1)?;
+        count += 1;
+    }
+    input.reset(before)?;
+
+    Ok(count)
+}
+
 #[inline]
 pub fn uncons_range<Input>(
     input: &mut Input,
-- 
2.43.0


From 3089f9f5660c1db7a5a2e6163c8abaa2ea43be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 08/34] fix: take_until and repeat_until report consumed input
 and keep it for their end parser

---
 src/parser/repeat.rs | 57 +++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 15334e6..b4a26f4 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -15,7 +15,7 @@ use crate::{
         token::{value, Value},
         FirstMode, ParseMode,
     },
-    stream::{uncons, Stream, StreamOnce},
+    stream::{rewind, skip_tokens, uncons, Stream, StreamOnce},
     ErrorOffset, Parser,
 };
 
@@ -1153,7 +1153,7 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, usize, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1166,26 +1166,34 @@ where
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut committed, ref mut output, ref mut end_consumed, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
         loop {
             let before = input.checkpoint();
+            // Continue from where `end` ran out of input
+            ctry!(skip_tokens(input, mem::take(end_consumed)).committed());
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
+                    *end_state = Default::default();
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    match uncons(input) {
+                        CommitOk(token) | PeekOk(token) => output.extend(Some(token)),
+                        PeekErr(err) if *committed => return CommitErr(err.error),
+                        PeekErr(err) => return PeekErr(err),
+                        CommitErr(err) => return CommitErr(err),
+                    }
+                    *committed = true;
                 }
                 Err(Commit::Commit(e)) => {
-                    ctry!(input.reset(before).committed());
+                    *end_consumed = ctry!(rewind(input, before).committed()).0;
                     return CommitErr(e.error);
                 }
             };
@@ -1277,7 +1285,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, usize, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1290,32 +1298,43 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, is_parse, committed, parse_state, end_consumed, end_state) = state;
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
+                let result = if *committed {
+                    match self.parser.parse_committed_mode(mode, input, parse_state) {
+                        PeekErr(err) => CommitErr(err.error),
+                        result => result,
+                    }
+                } else {
+                    self.parser.parse_mode(mode, input, parse_state)
+                };
+                let (token, c) = ctry!(result);
                 output.extend(Some(token));
-                committed = committed.merge(c);
+                *committed |= !c.is_peek();
                 *is_parse = false;
             } else {
                 let before = input.checkpoint();
+                // Continue from where `end` ran out of input
+                ctry!(skip_tokens(input, mem::take(end_consumed)).committed());
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
+                        *end_state = Default::default();
                         ctry!(input.reset(before).committed());
                         mode.set_first();
                         *is_parse = true;
                     }
                     Err(Commit::Commit(e)) => {
-                        ctry!(input.reset(before).committed());
+                        *end_consumed = ctry!(rewind(input, before).committed()).0;
                         return CommitErr(e.error);
                     }
                 }
-- 
2.43.0


From dda27adbba54f28ea44bf2c42a1fd0aa43997ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 09/34] fix: repetitions remember that they consumed input in
 an earlier chunk

---
 src/parser/repeat.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index b4a26f4..3b7fcfd 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -123,7 +123,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,15 +136,17 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, committed, elements, child_state) = state;
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
+        *committed = iter.committed;
         if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
@@ -154,6 +156,7 @@ where
         } else {
             iter.into_result_fast(elements).map(|x| {
                 *count = 0;
+                *committed = false;
                 x
             })
         }
@@ -384,7 +387,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -398,11 +401,17 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed, ref mut elements, ref mut child_state) = *state;
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed = iter.committed;
+
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -492,9 +501,11 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
+            *committed_state = false;
             x
         })
     }
@@ -724,6 +735,7 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
                 rest
             }
@@ -735,6 +747,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
-- 
2.43.0


From 738414e9309ed8239f84e96c599eb224c16d299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 10/34] fix: parsers which recover from a failed parser reset
 its state

---
 src/parser/choice.rs | 1 +
 src/parser/repeat.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..02d6d3c 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -658,6 +658,7 @@ where
             CommitOk(x) => CommitOk(Some(x)),
             CommitErr(err) => CommitErr(err),
             PeekErr(_) => {
+                *state = Default::default();
                 ctry!(input.reset(before).committed());
                 PeekOk(None)
             }
diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 3b7fcfd..b549272 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -363,6 +363,7 @@ where
                 Some(v)
             }
             PeekErr(e) => {
+                *self.partial_state.borrow_mut() = Default::default();
                 self.state = match self.input.reset(before) {
                     Err(err) => State::CommitErr(err),
                     Ok(_) => State::PeekErr(e.error),
@@ -1046,6 +1047,7 @@ where
                     return CommitErr(err.error);
                 }
                 Err(Commit::Peek(_)) => {
+                    *child_state = Default::default();
                     ctry!(input.reset(before).committed());
                     break;
                 }
-- 
2.43.0


From 5cc5c2899fe4a7750696f471cbc3d4938dabd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 11/34] fix: choice over slices starts every alternative from a
 fresh state

---
 src/parser/choice.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 02d6d3c..8686519 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -395,6 +395,7 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
@@ -410,12 +411,21 @@ where
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
-        match self_[i].parse_mode(mode, input, child_state) {
+        match self_[i].parse_first(input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If we get `CommitErr` but the input is the same this is a partial parse we
+                // cannot commit to so retry all the parsers on the next call to `parse_partial`
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                } else {
+                    *index_state = 0;
+                    *child_state = Default::default();
+                }
                 return committed_err;
             }
             PeekErr(err) => {
+                // Do not let the next parser see the state of the one which failed
+                *child_state = Default::default();
                 prev_err = match prev_err {
                     None => Some(err),
                     Some(mut prev_err) => {
-- 
2.43.0


From b2ba31adde290e3159188b3433f6bf37b536aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 12/34] fix: sequences remember that they consumed input in an
 earlier chunk

---
 src/parser/sequence.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..2c28cd8 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,8 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            // One more than the index of the last parser which committed or zero if none did
+            first_empty_parser: u8,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +166,12 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+                // Input committed before the parser was suspended counts when it is resumed
+                let mut first_empty_parser = if mode.is_first() {
+                    0
+                } else {
+                    usize::from(state.first_empty_parser)
+                };
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -199,8 +206,8 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
@@ -217,7 +224,10 @@ macro_rules! tuple_parser {
                                 }
                                 return add_errors!(err, state.offset)
                             }
-                            CommitErr(err) => return CommitErr(err),
+                            CommitErr(err) => {
+                                state.first_empty_parser = first_empty_parser as u8;
+                                return CommitErr(err);
+                            }
                             PeekOk(x) => {
                                 x
                             }
@@ -232,6 +242,7 @@ macro_rules! tuple_parser {
                     }
                 )*
 
+                state.first_empty_parser = 0;
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
                 if first_empty_parser != 0 {
-- 
2.43.0


From 5f403b93218a49334a4cc8127d8148ba0c7c6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 13/34] fix: take_fn parsers handle resuming inside a char and
 empty remaining input

---
 src/parser/range.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..418d5aa 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -578,8 +578,11 @@ where
 
         if mode.is_first() {
             *offset = 0;
-        } else {
-            let _ = input.uncons_range(*offset);
+        } else if input.uncons_range(*offset).is_err() {
+            // `offset` does not need to be a position that the stream can be advanced to, if it is
+            // in the middle of a `char` for instance
+            ctry!(input.reset(checkpoint.clone()).committed());
+            *offset = 0;
         }
 
         match (self.searcher)(input.range()).into() {
@@ -600,7 +603,7 @@ where
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                if !input.is_partial() && input.range().is_empty() {
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
-- 
2.43.0


From 952dd94c518c8562a498e646c87e48bc9c15fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 14/34] fix: parser_count of large nested sequences does not
 overflow

---
 src/parser/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 2c28cd8..cad0d01 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -255,7 +255,7 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $( .saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
-- 
2.43.0


From d30930c75e0aeaefd53018718380b88e87760546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 15/34] fix: factory asks for a new parser unless it is
 resuming

---
 src/parser/combinator.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 641469c..d216f5b 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1174,7 +1174,8 @@ where
     R: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = R::PartialState;
+    // Whether the current parser is suspended, waiting for more input
+    type PartialState = (bool, R::PartialState);
 
     parse_mode!(Input);
 
@@ -1189,10 +1190,18 @@ where
     {
         // Always ask for a new parser except if we are in a partial call being resumed as we want
         // to resume the same parser then
-        if mode.is_first() {
+        let (ref mut suspended, ref mut child_state) = *state;
+        if mode.is_first() || !*suspended {
             self.1 = None;
         }
-        self.parser(input).parse_mode_impl(mode, input, state)
+        let result = self
+            .parser(input)
+            .parse_mode_impl(mode, input, child_state);
+        *suspended = match result {
+            CommitErr(ref err) => input.is_partial() && err.is_unexpected_end_of_input(),
+            _ => false,
+        };
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 940a7dc02255f5aa9b307fae6da18d1a863e70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 16/34] fix: range parsers forget their distance when they
 finish at the end of input

---
 src/parser/range.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 418d5aa..3b10cae 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -114,6 +114,7 @@ where
     let before = input.checkpoint();
 
     if !input.is_partial() {
+        *distance_state = 0;
         first(input, state)
     } else if mode.is_first() || *distance_state == 0 {
         let result = first(input, state);
-- 
2.43.0


From cceefd459471230c3866c83d0555558cc7bad123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 17/34] fix: ranges ending inside a character are an ordinary
 failure on partial input

---
 src/parser/range.rs | 9 ++++++---
 src/stream/mod.rs   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 3b10cae..d93dff2 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -481,7 +481,9 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    //
+                    // Ending up inside of a character only means that `::` does not match here
+                    if first_stream_error.is_none() && first_error.is_unexpected_end_of_input() {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
@@ -489,8 +491,9 @@ where
                     ctry!(input.reset(look_ahead_input).committed());
 
                     // See if we can advance anyway
-                    if input.uncons().is_err() {
-                        let (first_error, first_error_distance) = first_stream_error.unwrap();
+                    if let Err(error) = input.uncons() {
+                        let (first_error, first_error_distance) =
+                            first_stream_error.unwrap_or_else(|| (error, input.distance(&before)));
 
                         // Reset the stream
                         ctry!(input.reset(before).committed());
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index b46f67f..45f5ed0 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -251,7 +251,7 @@ where
     Input: ?Sized + StreamOnce + Positioned,
 {
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    if input.is_partial() && err.is_unexpected_end_of_input() {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From 81b147e904451b91154047e4760c688a89a02f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 18/34] fix: choice reports what every alternative expected
 when one of them is a sequence

Errors of the alternatives were only extracted for those which had skipped optional
parsers, so choice((token('a'), (optional(token('x')), token('b')))) did not mention 'a'.
---
 src/parser/choice.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 8686519..47fb04b 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -150,17 +150,17 @@ macro_rules! do_choice {
         // If offset != 1 then the nested parser is a sequence of parsers where 1 or
         // more parsers returned `PeekOk` before the parser finally failed with
         // `PeekErr`. Since we lose the offsets of the nested parsers when we merge
-        // the errors we must first extract the errors before we do the merge.
-        // If the offset == 0 on the other hand (which should be the common case) then
+        // the errors we must extract the errors of every parser while we have them.
+        // If the offset == 1 on the other hand (which should be the common case) then
         // we can delay the addition of the error since we know for certain that only
         // the first parser in the sequence were tried
-        $(
-            if $error.offset != ErrorOffset(1) {
+        if $($error.offset != ErrorOffset(1))||+ {
+            $(
                 error.offset = $error.offset;
                 $parser.add_error(&mut error);
-                error.offset = ErrorOffset(0);
-            }
-        )+
+            )+
+            error.offset = ErrorOffset(0);
+        }
         PeekErr(error)
     } };
     (
-- 
2.43.0


From f7b5e0b573856e377e5c5c44c66cac7ff2783998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 19/34] fix: easy messages stay messages when converted to
 another error type

---
 src/stream/easy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..596f461 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -302,10 +302,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -402,10 +402,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
-- 
2.43.0


From f4a37fb7faff62cf0572729eb9eaccd7576e20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 20/34] fix: an easy end of input error stays one when
 converted to another error type

---
 src/stream/easy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 596f461..5043966 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -88,6 +88,8 @@ use crate::stream::{
     Positioned, RangeStream, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce,
 };
 
+const END_OF_INPUT: &str = "end of input";
+
 /// Enum holding error information. Variants are defined for `Stream::Token` and `Stream::Range` as
 /// well as string variants holding easy descriptions.
 ///
@@ -289,6 +291,7 @@ where
         T: StreamError<Item, Range>,
     {
         match self {
+            Error::Unexpected(Info::Static(END_OF_INPUT)) => T::end_of_input(),
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x),
                 Info::Range(x) => T::unexpected_range(x),
@@ -389,6 +392,7 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
         Range2: From<Range>,
     {
         match self {
+            Error::Unexpected(Info::Static(END_OF_INPUT)) => T::end_of_input(),
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x.into()),
                 Info::Range(x) => T::unexpected_range(x.into()),
@@ -551,7 +555,7 @@ where
 impl<T, R> Error<T, R> {
     /// Returns the `end_of_input` error.
     pub fn end_of_input() -> Error<T, R> {
-        Error::Unexpected("end of input".into())
+        Error::Unexpected(END_OF_INPUT.into())
     }
 
     /// Formats a slice of errors in a human readable way.
-- 
2.43.0


From aab0926f9f9409d7d80a367062cc7bbae32a8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 21/34] fix: a single easy error remembers the end of input
 when another error is added to it

---
 src/stream/easy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 5043966..bd74c7e 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -341,7 +341,10 @@ where
 
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = err;
+        // Unlike other errors this one has a meaning for partial parsing
+        if !StreamError::is_unexpected_end_of_input(self) {
+            *self = err;
+        }
     }
 
     #[inline]
-- 
2.43.0


From 265048632a33808bdaf0bfd9e764156189a4c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 22/34] fix: decode! works with a decoder without internal
 buffer

---
 src/stream/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..07ca2a4 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -139,12 +139,12 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
         R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From 4a7b1527d8b06edaa55d13dc037216ce073e2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 23/34] fix: decode_futures_03! works with a decoder without
 internal buffer

---
 src/stream/decoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 07ca2a4..c073985 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -214,7 +214,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
-- 
2.43.0


From 26c913a0ff3e133ffdb93c68152d928146b0e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 24/34] fix: decode_futures_03! accepts three arguments

---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index 45f5ed0..be5fbd4 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1544,11 +1544,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From efdb7e07725bcdb427405aed119d427cd6e7e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 25/34] fix: read::Error keeps a failure to read and has a
 position

---
 src/stream/read.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..ba86e16 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -121,15 +121,30 @@ where
         err
     }
 
+    #[inline]
+    fn position(&self) -> Position {
+        Position::default()
+    }
+
     #[inline]
     fn set_position(&mut self, _position: Position) {}
 
+    #[inline]
+    fn merge(self, other: Self) -> Self {
+        match self {
+            // A failure to read is never hidden by what the parser made of it
+            Error::Io(_) => self,
+            _ => other,
+        }
+    }
+
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = match (&*self, err) {
-            (Error::EndOfInput, _) => Error::EndOfInput,
-            (_, err) => err,
-        };
+        match (&*self, &err) {
+            (Error::Io(_), _) => (),
+            (Error::EndOfInput, Error::Unexpected) => (),
+            _ => *self = err,
+        }
     }
 
     #[inline]
@@ -138,7 +153,10 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        match self_.error {
+            Error::Io(_) => (),
+            _ => self_.error = info,
+        }
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From 4e3a7b3786bba6486a29b0ad0fd562bd45e2064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 26/34] fix: a failing input is not reported as its end

---
 src/parser/mod.rs   | 45 ++++++++++++++++++++++++++++++---------------
 src/parser/token.rs |  3 ++-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0d59bc4..5a7c491 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -147,11 +147,16 @@ pub trait Parser<Input: Stream> {
         let mut result = self.parse_first(input, &mut state);
         if let ParseResult::PeekErr(ref mut error) = result {
             ctry!(input.reset(before.clone()).committed());
-            if let Ok(t) = input.uncons() {
-                ctry!(input.reset(before).committed());
-                error.error.add_unexpected(Token(t));
-            } else {
-                error.error.add(StreamErrorFor::<Input>::end_of_input());
+            match input.uncons() {
+                Ok(t) => {
+                    ctry!(input.reset(before).committed());
+                    error.error.add_unexpected(Token(t));
+                }
+                Err(ref err) if err.is_unexpected_end_of_input() => {
+                    error.error.add(StreamErrorFor::<Input>::end_of_input());
+                }
+                // The parser reported this failure when it encountered it
+                Err(_) => (),
             }
             self.add_error(error);
         }
@@ -216,11 +221,16 @@ pub trait Parser<Input: Stream> {
         let mut result = self.parse_partial(input, state);
         if let ParseResult::PeekErr(ref mut error) = result {
             ctry!(input.reset(before.clone()).committed());
-            if let Ok(t) = input.uncons() {
-                ctry!(input.reset(before).committed());
-                error.error.add_unexpected(Token(t));
-            } else {
-                error.error.add(StreamErrorFor::<Input>::end_of_input());
+            match input.uncons() {
+                Ok(t) => {
+                    ctry!(input.reset(before).committed());
+                    error.error.add_unexpected(Token(t));
+                }
+                Err(ref err) if err.is_unexpected_end_of_input() => {
+                    error.error.add(StreamErrorFor::<Input>::end_of_input());
+                }
+                // The parser reported this failure when it encountered it
+                Err(_) => (),
             }
             self.add_error(error);
         }
@@ -1135,11 +1145,16 @@ pub trait ParseMode: Copy {
         let mut result = parser.parse_mode_impl(self, input, state);
         if let ParseResult::PeekErr(ref mut error) = result {
             ctry!(input.reset(before.clone()).committed());
-            if let Ok(t) = input.uncons() {
-                ctry!(input.reset(before).committed());
-                error.error.add_unexpected(Token(t));
-            } else {
-                error.error.add(StreamErrorFor::<Input>::end_of_input());
+            match input.uncons() {
+                Ok(t) => {
+                    ctry!(input.reset(before).committed());
+                    error.error.add_unexpected(Token(t));
+                }
+                Err(ref err) if err.is_unexpected_end_of_input() => {
+                    error.error.add(StreamErrorFor::<Input>::end_of_input());
+                }
+                // The parser reported this failure when it encountered it
+                Err(_) => (),
             }
             parser.add_error(error);
         }
diff --git a/src/parser/token.rs b/src/parser/token.rs
index 205ed33..c8ca10f 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -668,7 +668,8 @@ where
                     PeekOk(())
                 }
             }
-            _ => {
+            Err(err) => crate::stream::wrap_stream_error(input, err),
+            Ok(_) => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
             }
-- 
2.43.0


From 3d6a9e68ae58c5173e396a3d767690e011b285a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 27/34] fix: an empty range literal consumes nothing and does
 not commit

---
 src/parser/range.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index d93dff2..383478c 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -51,7 +51,11 @@ where
         match input.uncons_range(self.0.len()) {
             Ok(other) => {
                 if other == self.0 {
-                    CommitOk(other)
+                    if self.0.len() == 0 {
+                        PeekOk(other)
+                    } else {
+                        CommitOk(other)
+                    }
                 } else {
                     PeekErr(Input::Error::empty(position).into())
                 }
-- 
2.43.0


From 1aa8135e44f4126b9f453e11f1efea51a3e00afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 28/34] fix: spanned keeps where it started when its parser is
 suspended and resumed

---
 src/parser/combinator.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index d216f5b..9d50feb 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1583,7 +1583,8 @@ where
     Q: Ord + Clone,
 {
     type Output = P::Output;
-    type PartialState = P::PartialState;
+    // Where a suspended parse started
+    type PartialState = (Option<Q>, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1596,8 +1597,21 @@ where
     where
         M: ParseMode,
     {
-        let start = input.position().start;
-        self.0.parse_mode(mode, input, state).map_err(|mut err| {
+        let (ref mut started, ref mut child_state) = *state;
+        if mode.is_first() {
+            *started = None;
+        }
+        let start = match started.take() {
+            Some(start) => start,
+            None => input.position().start,
+        };
+        let result = self.0.parse_mode(mode, input, child_state);
+        if let CommitErr(ref err) = result {
+            if input.is_partial() && err.is_unexpected_end_of_input() {
+                *started = Some(start.clone());
+            }
+        }
+        result.map_err(|mut err| {
             let error_span = err.position();
             // If an inner `spanned` combinator has already attached its span that will be more
             // specific so only set a span if the current error has a position, not a span
-- 
2.43.0


From 4c3cfe09459933588a0a2381857a71e6cd3d2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 29/34] fix: a failure decided at the end of a chunk is not a
 request for more input

---
 src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5a7c491..aee5599 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -152,7 +152,7 @@ pub trait Parser<Input: Stream> {
                     ctry!(input.reset(before).committed());
                     error.error.add_unexpected(Token(t));
                 }
-                Err(ref err) if err.is_unexpected_end_of_input() => {
+                Err(ref err) if err.is_unexpected_end_of_input() && !input.is_partial() => {
                     error.error.add(StreamErrorFor::<Input>::end_of_input());
                 }
                 // The parser reported this failure when it encountered it
@@ -226,7 +226,7 @@ pub trait Parser<Input: Stream> {
                     ctry!(input.reset(before).committed());
                     error.error.add_unexpected(Token(t));
                 }
-                Err(ref err) if err.is_unexpected_end_of_input() => {
+                Err(ref err) if err.is_unexpected_end_of_input() && !input.is_partial() => {
                     error.error.add(StreamErrorFor::<Input>::end_of_input());
                 }
                 // The parser reported this failure when it encountered it
@@ -1150,7 +1150,7 @@ pub trait ParseMode: Copy {
                     ctry!(input.reset(before).committed());
                     error.error.add_unexpected(Token(t));
                 }
-                Err(ref err) if err.is_unexpected_end_of_input() => {
+                Err(ref err) if err.is_unexpected_end_of_input() && !input.is_partial() => {
                     error.error.add(StreamErrorFor::<Input>::end_of_input());
                 }
                 // The parser reported this failure when it encountered it
-- 
2.43.0


From beb4b1be50f32df67ecb1190784125385e6092ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 30/34] fix: iterate says what was wrong with an item behind
 consumed input

---
 src/parser/repeat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index b549272..1b21dc9 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1570,7 +1570,12 @@ where
         let mut consume = |item: J::Item| {
             let mut parser = (self.parser)(&item, input);
             let before = input.checkpoint();
-            match parser.parse_mode(mode, input, next) {
+            let result = if *committed {
+                parser.parse_committed_mode(mode, input, next)
+            } else {
+                parser.parse_mode(mode, input, next)
+            };
+            match result {
                 PeekOk(v) => {
                     mode.set_first();
                     Ok(v)
-- 
2.43.0


From a9495dd5671cba9356bc5016a2827e56d997daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 31/34] fix: recognize reports how its parser could have gone
 on

---
 src/parser/combinator.rs | 5 +----
 src/parser/range.rs      | 5 ++---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 9d50feb..49dd864 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -555,10 +555,7 @@ where
         Self::recognize_result(elements, before, input, result)
     }
 
-    #[inline]
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Constructs a parser which returns the tokens parsed by `parser` accumulated in
diff --git a/src/parser/range.rs b/src/parser/range.rs
index 383478c..1d31dbc 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -198,9 +198,8 @@ where
             (range, value)
         })
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Zero-copy parser which returns a pair: (committed input range, parsed value).
-- 
2.43.0


From 93887de2c75cf13a2b36c749e3474c3450c1589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 32/34] fix: Either reports how its parser could have gone on

---
 src/parser/combinator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 49dd864..ad52db7 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -657,6 +657,23 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    fn add_committed_expected_error(
+        &mut self,
+        error: &mut Tracked<<Input as StreamOnce>::Error>,
+    ) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
+
+    fn parser_count(&self) -> crate::ErrorOffset {
+        match *self {
+            Either::Left(ref x) => x.parser_count(),
+            Either::Right(ref x) => x.parser_count(),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
-- 
2.43.0


From 173d3915348101183063130de4b98bc3213aa064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 33/34] fix: attempt(lazy(..)) reports what was expected

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index ad52db7..6ba2260 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1124,7 +1124,7 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode(mode, input, state)
+        (self.0)().parse_committed_mode(mode, input, state)
     }
 
     fn parse_mode_impl<M>(
-- 
2.43.0


From 18eb6f8fccaa1349a5edf287b3b8ff748343acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 34/34] fix: spanned counts the parsers within it when errors
 are reported

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 6ba2260..122b5fb 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1637,7 +1637,7 @@ where
         })
     }
 
-    forward_parser!(Input, add_error, add_committed_expected_error, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Equivalent to [`p.spanned()`].
-- 
2.43.0

