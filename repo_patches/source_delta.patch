From b375c0663345ba40a7d6d8727b976e48abe4f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 01/13] fix: reject malformed integer literals that start with
 zero

'08' was lexed as the integer 0, '008' panicked in debug builds, and a letter directly after a
lone '0' was not reported.
---
 protox-parse/src/lex/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..8fdbea5 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,8 +14,8 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
-    #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
+    #[regex("0", |lex| int(lex, 8, 0))]
+    #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
     IntLiteral(u64),
@@ -187,13 +187,19 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
 
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
-        Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
+        Err(err) if err.kind() == &IntErrorKind::PosOverflow => {
             lex.extras
                 .errors
                 .push(ParseErrorKind::IntegerOutOfRange { span });
             Ok(Default::default())
         }
+        Err(_) => {
+            // The digits 8 and 9 are not valid in an octal literal.
+            lex.extras
+                .errors
+                .push(ParseErrorKind::InvalidToken { span: lex.span() });
+            Ok(Default::default())
+        }
     }
 }
 
-- 
2.43.0


From 9dbac16dbf5a82d9124be84eebd7db19300b3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 02/13] fix: report a float literal that runs into an
 identifier

---
 protox-parse/src/error.rs   |  2 +-
 protox-parse/src/lex/mod.rs | 30 ++++++++++++++++++------------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..f82f895 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -91,7 +91,7 @@ pub(crate) enum ParseErrorKind {
         #[label("…and again here")]
         second: Span,
     },
-    #[error("whitespace is required between an integer literal and an identifier")]
+    #[error("whitespace is required between a numeric literal and an identifier")]
     NoSpaceBetweenIntAndIdent {
         #[label("found here")]
         span: Span,
diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 8fdbea5..f361654 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -3,7 +3,7 @@ mod tests;
 
 use std::{ascii, borrow::Cow, convert::TryInto, fmt, num::IntErrorKind};
 
-use logos::{Lexer, Logos};
+use logos::{Lexer, Logos, Span};
 
 use super::error::ParseErrorKind;
 
@@ -173,17 +173,7 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     debug_assert!(lex.slice().len() > prefix_len);
     let span = lex.span().start + prefix_len..lex.span().end;
 
-    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
-        let mut end = span.end + 1;
-        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
-            end += 1;
-        }
-        lex.extras
-            .errors
-            .push(ParseErrorKind::NoSpaceBetweenIntAndIdent {
-                span: span.start..end,
-            })
-    }
+    check_space_after_number(lex, span.clone());
 
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
@@ -203,7 +193,23 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     }
 }
 
+fn check_space_after_number<'a>(lex: &mut Lexer<'a, Token<'a>>, span: Span) {
+    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
+        let mut end = span.end + 1;
+        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
+            end += 1;
+        }
+        lex.extras
+            .errors
+            .push(ParseErrorKind::NoSpaceBetweenIntAndIdent {
+                span: span.start..end,
+            })
+    }
+}
+
 fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> EqFloat {
+    check_space_after_number(lex, lex.span());
+
     let start = lex.span().start;
     let last = lex.span().end - 1;
     let s = match lex.source().as_bytes()[last] {
-- 
2.43.0


From b6f4fdf96a1712b100dac456a67c1c2f2184fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 03/13] fix: leave text format mode when an aggregate option
 contains an invalid token

---
 protox-parse/src/parse/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..e776392 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -978,12 +978,18 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_text_format_message(&mut self) -> Result<String, ()> {
+        debug_assert!(self.peek.is_none());
+        self.lexer.extras.text_format_mode = true;
+        let result = self.parse_text_format_fields();
+        self.lexer.extras.text_format_mode = false;
+        result
+    }
+
+    fn parse_text_format_fields(&mut self) -> Result<String, ()> {
         let mut result = String::new();
 
         let mut brace_level = 0u32;
 
-        debug_assert!(self.peek.is_none());
-        self.lexer.extras.text_format_mode = true;
         while let Some((tok, _)) = self.peek()? {
             if tok == Token::LeftBrace {
                 brace_level += 1;
@@ -1000,7 +1006,6 @@ impl<'a> Parser<'a> {
             write!(result, "{}", tok).unwrap();
             self.bump();
         }
-        self.lexer.extras.text_format_mode = false;
 
         Ok(result)
     }
-- 
2.43.0


From 0a8048b1a69436371292fc5e8986d94985ba5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 04/13] fix: accept options after a single extension number

---
 protox-parse/src/parse/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index e776392..764870a 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -810,13 +810,13 @@ impl<'a> Parser<'a> {
         &mut self,
         terminators: &[ExpectedToken],
     ) -> Result<Vec<ast::ReservedRange>, ()> {
-        let mut ranges = vec![self.parse_reserved_range()?];
+        let mut ranges = vec![self.parse_reserved_range(terminators)?];
 
         loop {
             match self.peek_skip_comments()? {
                 Some((Token::Comma, _)) => {
                     self.bump();
-                    ranges.push(self.parse_reserved_range()?);
+                    ranges.push(self.parse_reserved_range(terminators)?);
                     continue;
                 }
                 Some((tok, _)) if terminators.iter().any(|e| e.matches(&tok)) => break,
@@ -829,7 +829,10 @@ impl<'a> Parser<'a> {
         Ok(ranges)
     }
 
-    fn parse_reserved_range(&mut self) -> Result<ast::ReservedRange, ()> {
+    fn parse_reserved_range(
+        &mut self,
+        terminators: &[ExpectedToken],
+    ) -> Result<ast::ReservedRange, ()> {
         let start = self.parse_int()?;
 
         let end = match self.peek_skip_comments()? {
@@ -846,7 +849,10 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma, _)) => ast::ReservedRangeEnd::None,
+            Some((tok, _)) if terminators.iter().any(|e| e.matches(&tok)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From aa000456a8701040780ec1fc093ae2555392775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 05/13] fix: accept reserved names that start with an
 underscore

---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From 6eb43e865541da4d700ee175d85ccba32ecc4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 06/13] fix: keep locations that share a path in source order

---
 protox-parse/src/generate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..c276b07 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -32,7 +32,7 @@ pub(crate) fn generate_file(
     let file = ctx.generate_file_descriptor(name, ast);
 
     if ctx.errors.is_empty() {
-        ctx.locations.sort_unstable_by(|l, r| l.path.cmp(&r.path));
+        ctx.locations.sort_by(|l, r| l.path.cmp(&r.path));
 
         Ok(FileDescriptorProto {
             source_code_info: Some(SourceCodeInfo {
-- 
2.43.0


From c79d5be10c8cb33cc47d4390a955ba48d5996d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 07/13] fix: avoid name conflicts between synthetic oneofs and
 other fields or oneofs

---
 protox-parse/src/generate/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index c276b07..7927444 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use logos::Span;
 use prost_types::{
     descriptor_proto, enum_descriptor_proto, field_descriptor_proto, source_code_info::Location,
@@ -258,6 +260,8 @@ impl Context {
             }
         }
 
+        rename_conflicting_oneofs(&field, &mut oneof_decl, real_oneof_count);
+
         let is_message_set = match ast
             .options
             .iter()
@@ -1264,6 +1268,27 @@ impl Context {
     }
 }
 
+/// Prefix the names of synthetic oneofs until they no longer conflict with any field or oneof in the message.
+fn rename_conflicting_oneofs(
+    fields: &[FieldDescriptorProto],
+    oneofs: &mut [OneofDescriptorProto],
+    real_oneof_count: usize,
+) {
+    let (real, synthetic) = oneofs.split_at_mut(real_oneof_count);
+
+    let mut names: HashSet<String> = fields.iter().map(|field| field.name().to_owned()).collect();
+    names.extend(real.iter().map(|oneof| oneof.name().to_owned()));
+
+    for oneof in synthetic {
+        let mut name = oneof.name().to_owned();
+        while names.contains(&name) {
+            name.insert(0, 'X');
+        }
+        names.insert(name.clone());
+        oneof.name = Some(name);
+    }
+}
+
 fn take_option(options: &mut Option<ast::OptionList>, name: &str) -> Option<ast::OptionBody> {
     if let Some(options) = options {
         if let Some(index) = options.options.iter().position(|o| o.has_name(name)) {
-- 
2.43.0


From 296a2cf401997f8d07937e9f44d3f4f0fe00449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 08/13] fix: keep blank lines in block comments

---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index f361654..428d067 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -410,7 +410,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From 6df176840064ee0f38f86b2c685ab41412bface1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 09/13] fix: attach the comment after the opening brace to an
 rpc with a body

---
 protox-parse/src/parse/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 764870a..8539604 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -556,14 +556,15 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::RightParen)?;
 
         let mut options = Vec::new();
-        let end = match self.peek_skip_comments()? {
+        let (end, comments) = match self.peek_skip_comments()? {
             Some((Token::Semicolon, span)) => {
                 self.bump();
-                span
+                (span, self.parse_trailing_comment(leading_comments))
             }
             Some((Token::LeftBrace, _)) => {
                 self.bump();
-                loop {
+                let comments = self.parse_trailing_comment(leading_comments);
+                let end = loop {
                     match self.peek()? {
                         Some((Token::OPTION, _)) => {
                             options.push(self.parse_option()?);
@@ -575,13 +576,12 @@ impl<'a> Parser<'a> {
                         }
                         _ => self.unexpected_token("'option', '}' or ';'")?,
                     }
-                }
+                };
+                (end, comments)
             }
             _ => self.unexpected_token("';' or '{'")?,
         };
 
-        let comments = self.parse_trailing_comment(leading_comments);
-
         Ok(ast::Method {
             name,
             input_ty,
-- 
2.43.0


From 78dca193fde6e8310f5396536468b51009722155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 10/13] fix: a block comment that ends a line belongs to the
 declaration before it

---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 8539604..26c3dd6 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1209,6 +1209,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 1ecd291a826e121afcd6929ef57a1fc8545f9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 11/13] fix: locate bad imports by byte columns and over
 several lines

---
 protox/src/error.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..a7ddf82 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -178,15 +178,18 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
         if let Some(source) = file.source() {
             for location in &sci.location {
                 if location.path == [3, import_idx as i32] {
-                    if location.span.len() != 3 {
-                        continue;
-                    }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
+                    let (start_line, start_col, end_line, end_col) = match *location.span {
+                        [line, start_col, end_col] => (line, start_col, line, end_col),
+                        [start_line, start_col, end_line, end_col] => {
+                            (start_line, start_col, end_line, end_col)
+                        }
+                        _ => continue,
+                    };
+                    let start = line_offset(source, start_line as usize) + start_col as usize;
+                    let end = line_offset(source, end_line as usize) + end_col as usize;
                     return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
-                        end_col - start_col,
+                        SourceOffset::from(start),
+                        end.saturating_sub(start),
                     ));
                 }
             }
@@ -195,6 +198,11 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
     None
 }
 
+/// Gets the byte offset of the start of a line. Columns in source info are also counted in bytes.
+fn line_offset(source: &str, line: usize) -> usize {
+    source.split_inclusive('\n').take(line).map(str::len).sum()
+}
+
 impl From<DescriptorError> for Error {
     fn from(err: DescriptorError) -> Self {
         Error::from_kind(ErrorKind::Check { err })
-- 
2.43.0


From 6e0276fed8e878af8ba83b6d024c6ad6a8cd56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 12/13] fix: look on in the next include directory when a path
 runs through a plain file

---
 protox/src/file/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protox/src/file/mod.rs b/protox/src/file/mod.rs
index f8bd0a5..b99bc8b 100644
--- a/protox/src/file/mod.rs
+++ b/protox/src/file/mod.rs
@@ -120,6 +120,8 @@ impl File {
         let map_io_err = |err: io::Error| -> Error {
             match err.kind() {
                 io::ErrorKind::NotFound => Error::file_not_found(name),
+                // The path runs through a file instead of a directory
+                _ if path.ancestors().skip(1).any(Path::is_file) => Error::file_not_found(name),
                 io::ErrorKind::InvalidData => Error::from_kind(ErrorKind::FileInvalidUtf8 {
                     name: name.to_owned(),
                 }),
-- 
2.43.0


From ceddb67e87c6f53982a17a87d9aece80e84e4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 13/13] fix: name the import in the message for an invalid
 import path

---
 protox-parse/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index f82f895..d79dbce 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -76,7 +76,7 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
-    #[error("invalid group name")]
+    #[error("invalid import path")]
     #[diagnostic(help(
         "imports may not contain backslashes, repeated forward slashes, '.' or '..' components"
     ))]
-- 
2.43.0

