From 9a0395cf81664e5694428028f935f502717701db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 1/9] fix: require every character of a FROM digest to be
 hexadecimal

The digest pattern was not anchored, so a 64-character digest was accepted
as soon as it contained a single hexadecimal digit.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From 903d8f42a69d5bdd78496d0625718e675faefe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 2/9] fix: look up global args past other instructions before
 the first FROM

get_global_arg() gave up at the first instruction that was not an ARG, so
an ARG that global_args lists (and that FROM substitution uses) was not
found when e.g. an unsupported instruction preceded it.
---
 src/dockerfile_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..06b42aa 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,8 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From a5436e6d5cc3b1d5982921ebf8670564deb231c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 3/9] fix: recognise every line continuation inside quoted
 labels

A quoted LABEL continued over a CRLF (or CR) line end, or with blanks after
the backslash, failed with an unescape error: only a backslash directly
before a line feed was removed, while the grammar (line_continuation,
NEWLINE) accepts all of these.
---
 src/util.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..e732a3f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -7,6 +7,8 @@ use crate::parser::*;
 use crate::splicer::Span;
 
 use enquote::unquote;
+use lazy_static::lazy_static;
+use regex::Regex;
 use snafu::ResultExt;
 
 /// Given a node ostensibly containing a string array, returns an unescaped
@@ -46,11 +48,17 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n) from a string, however the line ends
 ///
-/// This should be used to clean any input from the any_breakable rule
+/// This should be used to clean any quoted string before it is unquoted; it
+/// matches what the line_continuation rule does
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  lazy_static! {
+    static ref ESCAPED_BREAK: Regex =
+        Regex::new(r"\\[ \t]*(?:\r\n|\n|\r)").unwrap();
+  }
+
+  ESCAPED_BREAK.replace_all(s, "").into_owned()
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From dfd18ef55476dcfe7ecaaae6bf3fd7d5b6e34cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 4/9] fix: honour line continuations inside quoted ENV, ARG and
 exec-form strings

The grammar admits an escaped line break within any quoted string, but only
LABEL removed it before unquoting; anywhere else the document was rejected
with an unescape error.
---
 src/instructions/env.rs | 6 ++++--
 src/util.rs             | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/instructions/env.rs b/src/instructions/env.rs
index 97c7eac..00dcd4f 100644
--- a/src/instructions/env.rs
+++ b/src/instructions/env.rs
@@ -53,7 +53,8 @@ fn parse_env_pair(record: Pair) -> Result<EnvVar> {
         );
       },
       Rule::env_pair_quoted_value => {
-        let v = unquote(field.as_str()).context(UnescapeError)?;
+        let v = unquote(&clean_escaped_breaks(field.as_str()))
+          .context(UnescapeError)?;
 
         value = Some(
           BreakableString::new(&field).add_string(&field, v)
@@ -116,7 +117,8 @@ impl EnvInstruction {
         Rule::env_name => key = Some(parse_string(&field)?),
         Rule::env_single_value => value = Some(parse_any_breakable(field)?),
         Rule::env_single_quoted_value => {
-          let v = unquote(field.as_str()).context(UnescapeError)?;
+          let v = unquote(&clean_escaped_breaks(field.as_str()))
+            .context(UnescapeError)?;
 
           value = Some(
             BreakableString::new(&field).add_string(&field, v)
diff --git a/src/util.rs b/src/util.rs
index e732a3f..f09b6b4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -37,7 +37,7 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   let str_span = Span::from_pair(field);
   let field_str = field.as_str();
   let content = if matches!(field_str.chars().next(), Some('"' | '\'' | '`')) {
-    unquote(field_str).context(UnescapeError)?
+    unquote(&clean_escaped_breaks(field_str)).context(UnescapeError)?
   } else {
     field_str.to_string()
   };
-- 
2.43.0


From b4a05c11f7ec32f43511b537164c29fea8096913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 5/9] fix: do not take an instruction's first line for a
 comment

A shell-form argument starting with '#' on the instruction's own line was
parsed as a comment that needs no line continuation, so the following line
was swallowed: 'RUN # foo' followed by 'FROM alpine' gave a single RUN.
Comments are only possible on continued lines.
---
 src/dockerfile_parser.pest | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..2da3cc4 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,14 +68,17 @@ any_content = @{
   )+
 }
 any_breakable = ${
+  // some piece of content, requiring a continuation EXCEPT on the final line
+  any_content ~ (line_continuation ~ any_continued)?
+}
+// once a line has been continued, comments may precede the next piece of
+// content; the first line is never a comment, even if it starts with a `#`
+any_continued = _{
   (
     // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
-  ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
-  )
+    comment_line ~ any_continued?
+  ) |
+  any_breakable
 }
 
 // consumes any character until the end of the line
-- 
2.43.0


From 9eac9a722cec4113158824769dc3daa602efddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 6/9] fix: allow comments between RUN, CMD or ENTRYPOINT and
 its continued argument

A comment on a continued line ahead of the argument ('RUN \', '# note',
'apt-get ...') was taken for the argument itself, and the document was
rejected with 'unexpected token comment'. Other instructions skip it.
---
 src/instructions/cmd.rs        | 4 +++-
 src/instructions/entrypoint.rs | 4 +++-
 src/instructions/run.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..59b0e42 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,9 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8d3f22d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,9 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..3267514 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,9 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 6dec51279ac081110823cea0a847dba3f98c1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 7/9] fix: parse a shell command that starts with a bracketed
 string as shell form

'RUN [ "$foo" ] && bar' was committed to exec form as soon as the bracketed
prefix looked like an array, and the rest of the line was then a syntax
error. Exec form must be the whole argument.
---
 src/dockerfile_parser.pest | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 2da3cc4..722366a 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -104,6 +104,10 @@ string_array = _{
   ) | "[" ~ arg_ws_maybe ~ "]"
 }
 
+// an exec-form array must be an instruction's entire argument: anything else that
+// happens to start like one (e.g. `[ "$foo" ] && bar`) is in shell form
+exec_end = _{ &(arg_ws_maybe ~ (NEWLINE | EOI)) }
+
 from_flag_name = @{ ASCII_ALPHA+ }
 from_flag_value = @{ any_whitespace }
 from_flag = { "--" ~ from_flag_name ~ "=" ~ from_flag_value }
@@ -131,15 +135,15 @@ label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) }
 
 run_shell = @{ any_breakable }
 run_exec = { string_array }
-run = { ^"run" ~ arg_ws ~ (run_exec | run_shell) }
+run = { ^"run" ~ arg_ws ~ (run_exec ~ exec_end | run_shell) }
 
 entrypoint_shell = @{ any_breakable }
 entrypoint_exec = { string_array }
-entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec | entrypoint_shell) }
+entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec ~ exec_end | entrypoint_shell) }
 
 cmd_shell = @{ any_breakable }
 cmd_exec = { string_array }
-cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec | cmd_shell) }
+cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec ~ exec_end | cmd_shell) }
 
 copy_flag_name = @{ ASCII_ALPHA+ }
 copy_flag_value = @{ any_whitespace }
-- 
2.43.0


From d78e55fac964bfb93d770b945558f311ce89f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 8/9] fix: keep splice offsets relative to the original
 document

Offsets were compared with already shifted positions, which cannot tell an
emptied span from its right-hand neighbour: deleting a span, splicing it
again and then splicing the adjacent one (or the same one a third time)
replaced the wrong text. Compare the original spans instead.
---
 src/splicer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..011d561 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -9,7 +9,8 @@ use crate::dockerfile_parser::Dockerfile;
 /// An offset used to adjust proceeding Spans after content has been spliced
 #[derive(Debug)]
 struct SpliceOffset {
-  position: usize,
+  /// the replaced span, relative to the original input document
+  span: Span,
   offset: isize
 }
 
@@ -39,10 +40,10 @@ impl Span {
     let mut end = self.end as isize;
 
     for splice in offsets {
-      if splice.position < start as usize {
+      if splice.span.start < self.start || splice.span.end <= self.start {
         start += splice.offset;
         end += splice.offset;
-      } else if splice.position < end as usize {
+      } else if splice.span.start < self.end {
         end += splice.offset;
       }
     }
@@ -161,6 +162,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let original_span = *span;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +170,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { span: original_span, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0


From 4b012c2df8b5ce48a188adab46aedb2421d68760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 9/9] fix: do not recurse once per continued line of shell text

---
 src/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f09b6b4..edca547 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -260,9 +260,11 @@ impl From<((usize, usize), &str)> for BreakableString {
 fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>> {
   let mut components = Vec::new();
 
-  for field in pair.into_inner() {
+  // each continued line nests one level deeper, so visit the tokens in order
+  // rather than recursively: there may be too many lines for the stack
+  for field in pair.into_inner().flatten() {
     match field.as_rule() {
-      Rule::any_breakable => components.extend(parse_any_breakable_inner(field)?),
+      Rule::any_breakable => continue,
       Rule::comment => components.push(SpannedComment {
         span: (&field).into(),
         content: field.as_str().to_string(),
-- 
2.43.0

