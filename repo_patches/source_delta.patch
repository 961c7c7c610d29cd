From ef2a8106a9f3817d3e82928ca7f8bc595d35dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 01/45] fix: don't slice parameter names at a non-character
 boundary

Two parameters whose names start with a multi-byte character panicked.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..a9f63b1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3885,7 +3885,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From 429e6460bcd4dc85a0b50153c0aa79b5bf28528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 02/45] fix: keep explicit parentheses directly inside
 begin/end

Only a synthesized (begin) may be merged into (kwbegin).
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a9f63b1..4557897 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3139,7 +3139,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From a4d03d325d7fadc608460d666bc6f5b4adc00af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 03/45] fix: treat the condition of a ternary as a condition

Regexps and ranges in it are match-current-line and flip-flop, as in if.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 4557897..92e6c30 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2600,7 +2600,7 @@ impl Builder {
         let colon_l = self.loc(&colon_t);
 
         Box::new(Node::IfTernary(IfTernary {
-            cond,
+            cond: Self::check_condition(cond),
             if_true,
             if_false,
             question_l,
-- 
2.43.0


From 5c583c12680eb1f5e1e9293194944de1dc06079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 04/45] fix: print control and meta escapes in regexps with two
 hex digits

Values below 0x10 got a NUL byte instead of the second digit.
---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..5138831 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -324,7 +324,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From 6dc32884f20d099800ae7bf4a70722177f0298b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 05/45] fix: don't duplicate an escaped multi-byte character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'\\é' without interpolation produced the backslash and the first byte twice.
---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 5138831..6cfdf32 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From d40a2ce91a5339f5291032cfffd96e6419efca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:48 +0000
Subject: [PATCH 06/45] fix: find the terminator of a heredoc on a first line
 that has a byte order mark

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..9b34195 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,8 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +84,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From 235679597769098e5ce893004d46d3a076cbfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:34 +0000
Subject: [PATCH 07/45] fix: keep the locations of unterminated regexps and
 heredocs inside the source

---
 src/builder.rs             | 8 +++++---
 src/lexer/parse_heredoc.rs | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 92e6c30..1fe9b76 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -558,8 +558,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.size() <= 1 {
+            // no regexp options, only trailing "/" (or nothing, if it's unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -587,7 +587,9 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let end_l = self.loc(&end_t);
+        // an unterminated regexp has an empty end token
+        let end_l = end_l.resize(end_l.size().min(1));
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 9b34195..72cc35a 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -307,6 +307,9 @@ impl Lexer {
     }
 
     fn here_document_error(&mut self, here: &HeredocLiteral, eos: usize, len: usize) -> i32 {
+        // the missing terminator is an empty token at the end of input
+        self.lval_start = Some(self.buffer.pend);
+        self.lval_end = Some(self.buffer.pend);
         self.heredoc_restore(here);
         self.compile_error(
             DiagnosticMessage::UnterminatedHeredoc {
-- 
2.43.0


From d3efde2fa869a4fb065000c956bdb2ae55c74c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:21 +0000
Subject: [PATCH 08/45] fix: end heredoc content tokens where the content ends

---
 src/lexer/parse_heredoc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 72cc35a..af60466 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -241,7 +241,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(self.buffer.pcur);
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -249,6 +249,7 @@ impl Lexer {
                     return self.heredoc_flush();
                 }
                 let cc = self.nextc();
+                self.lval_end = Some(self.buffer.pcur);
                 self.tokadd(cc);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
-- 
2.43.0


From 92711078fef5c7dd4ffc6b7f6aff5c36ea901645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:24 +0000
Subject: [PATCH 09/45] fix: treat CRLF as a newline in raw heredocs

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index af60466..4a9f57b 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -164,6 +164,9 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                // drop both "\r" and "\n", "\n" is added back below
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From 412cef7be1ba680bfe7385b2d989fe8c4bebf466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:50 +0000
Subject: [PATCH 10/45] fix: don't include the terminator in raw heredoc
 content, nor line ends in the terminator

---
 src/lexer/parse_heredoc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 4a9f57b..e920a07 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -211,7 +211,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -287,7 +287,7 @@ impl Lexer {
     fn compute_heredoc_end(&self) -> HeredocEnd {
         let start = self.buffer.pbeg;
         let mut end_starts_at = start;
-        while self.buffer.byte_at(end_starts_at) == b' ' {
+        while end_starts_at < self.buffer.pend && self.buffer.byte_at(end_starts_at).is_space() {
             end_starts_at += 1;
         }
         let mut end = end_starts_at;
@@ -296,6 +296,9 @@ impl Lexer {
             if c.is_eof() || c == b'\n' {
                 break;
             }
+            if c == b'\r' && self.buffer.byte_at(end + 1) == b'\n' {
+                break;
+            }
             end += 1;
         }
         let value = self
-- 
2.43.0


From a724a70f4b44b986a92b8ae14cf2d7ef17710d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 11/45] fix: keep the locations of malformed escapes inside the
 source

---
 src/lexer/parse_qmark.rs  |  2 ++
 src/lexer/parse_string.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 35bb1d6..7facbc7 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -33,6 +33,7 @@ impl Lexer {
             return self.parse_qmark_ternary(c);
         }
         self.newtok();
+        let char_start = self.buffer.ptok;
 
         if !self.is_ascii() {
             if self.tokadd_mbchar(c).is_err() {
@@ -88,6 +89,7 @@ impl Lexer {
         self.tokfix();
         let yylval = self.tokenbuf.take();
         self.set_yylval_str(&yylval);
+        self.lval_start = Some(char_start);
         self.lex_state.set(EXPR_END);
         Ok(Self::tCHAR)
     }
diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 6cfdf32..bedd207 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -4,6 +4,7 @@ use std::io::Write;
 use crate::maybe_byte::*;
 use crate::source::buffer::*;
 use crate::str_term::{str_types::*, StrTerm};
+use crate::Loc;
 use crate::TokenBuf;
 use crate::{lex_states::*, DiagnosticMessage};
 use crate::{lexer::*, str_term::StringLiteral};
@@ -381,10 +382,16 @@ impl Lexer {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.next_char_loc(),
         );
     }
 
+    // location of the character that comes next (empty at the end of input)
+    fn next_char_loc(&self) -> Loc {
+        let begin = self.buffer.pcur;
+        self.loc(begin, (begin + 1).min(self.buffer.pend))
+    }
+
     fn scan_hex(&mut self, start: usize, len: usize, numlen: &mut usize) -> usize {
         let mut s = start;
         let mut result = 0;
@@ -464,7 +471,7 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.next_char_loc(),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From 53142d6452fe20d54b24741809eb1a9ea5b52221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 12/45] fix: keep the source when its encoding is not supported

---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..8eac8eb 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -64,7 +64,7 @@ impl Input {
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.bytes.clone(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From effe50a6b6a32fafbaad317cd6ea53ad2649d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:50 +0000
Subject: [PATCH 13/45] fix: don't stop at a comment that looks like a magic
 comment with a non-UTF-8 name

---
 src/lexer/parse_magic_comment.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..aa142ca 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,12 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 28f57c2354f0f602cc8b2cdcb01775fac06e6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 14/45] fix: keep reading at the right place when a decoder
 changes the length of the source

---
 src/lexer/parse_magic_comment.rs | 16 ++++++++++++++--
 src/source/buffer.rs             | 18 +++++++++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index aa142ca..50aa5c4 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -338,8 +338,20 @@ impl Lexer {
                                 return Err(());
                             }
                         };
+                        let old_pbeg = self.buffer.pbeg;
                         match self.buffer.set_encoding(&encoding) {
-                            Ok(_) => {}
+                            Ok(_) => {
+                                // this line may have been moved or cut by the decoder
+                                let (pbeg, pend) = (self.buffer.pbeg, self.buffer.pend);
+                                let relocate =
+                                    |pos: usize| std::cmp::min(pos - old_pbeg + pbeg, pend);
+                                beg = relocate(beg);
+                                end = relocate(end);
+                                vbeg = relocate(vbeg);
+                                vend = relocate(vend);
+                                str_ = relocate(str_);
+                                len = std::cmp::min(len, (pend - str_) as i32);
+                            }
                             Err(err) => {
                                 self.yyerror1(
                                     DiagnosticMessage::EncodingError {
@@ -352,7 +364,7 @@ impl Lexer {
                         }
                     }
 
-                    let key_l = self.loc(beg, beg + n);
+                    let key_l = self.loc(beg, end);
                     let value_l = self.loc(vbeg, vend);
 
                     let magic_comment = MagicComment {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..a6ea6ad 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -323,7 +323,23 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        let old_start = self.input.line_at(self.lastline).start;
+        self.input.set_encoding(encoding)?;
+
+        // decoding may change the length of the lines that have been read
+        let (start, end) = if self.lastline < self.input.lines_count() {
+            let line = self.input.line_at(self.lastline);
+            (line.start, line.end)
+        } else {
+            (self.input.len(), self.input.len())
+        };
+        let relocate = |pos: usize| std::cmp::min(pos - old_start + start, end);
+        self.pbeg = relocate(self.pbeg);
+        self.pcur = relocate(self.pcur);
+        self.ptok = relocate(self.ptok);
+        self.pend = end;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 680af044688396ff9722290eef8d87815c9ccdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:35 +0000
Subject: [PATCH 15/45] fix: give the missing body of a numbered-parameter
 block a location inside the block

---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 1fe9b76..26e7366 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2136,7 +2136,7 @@ impl Builder {
                         numargs,
                         body: block_body.unwrap_or_else(|| {
                             Box::new(Node::Nil(Nil {
-                                expression_l: Loc { begin: 0, end: 0 },
+                                expression_l: begin_l.with_begin(begin_l.end),
                             }))
                         }),
                         begin_l,
@@ -2175,7 +2175,7 @@ impl Builder {
                         numargs,
                         body: block_body.unwrap_or_else(|| {
                             Box::new(Node::Nil(Nil {
-                                expression_l: Loc { begin: 0, end: 0 },
+                                expression_l: begin_l.with_begin(begin_l.end),
                             }))
                         }),
                         begin_l,
-- 
2.43.0


From 1769e4aec7856e48ab1e251e2717ae7c0df59f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:20 +0000
Subject: [PATCH 16/45] fix: treat a carriage return in the middle of a line as
 a space

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..9b74f6a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -225,6 +225,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 923d5a7713a3d316c5a0dbe0c27590a439c16fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 17/45] fix: report an error for a lone $-

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From 76321cffa3fbf1b17c31bd5c328635dd5ed508ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:31 +0000
Subject: [PATCH 18/45] fix: don't drop characters that are pushed back at the
 end of input

---
 src/lexer/parse_numeric.rs | 2 +-
 src/source/buffer.rs       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..ad10163 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -232,7 +232,7 @@ impl Lexer {
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
-                        nondigit = None;
+                        c = nondigit.take().expect("nondigit must be set");
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
                     self.tokadd(nondigit.expect("nondigit must be set"));
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index a6ea6ad..ed2fb32 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -311,6 +311,7 @@ impl Buffer {
         self.pcur = self.pend;
         self.pushback(1);
         self.set_ptok(self.pcur);
+        self.goto_eol();
     }
 
     pub(crate) fn is_identchar(&self, begin: usize, _end: usize) -> bool {
@@ -350,6 +351,8 @@ pub(crate) trait Pushback<T> {
 impl Pushback<u8> for Buffer {
     fn pushback(&mut self, c: u8) {
         self.pcur -= 1;
+        // there's something to read again
+        self.eofp = false;
         if self.pcur > self.pbeg
             && self.byte_at(self.pcur) == b'\n'
             && self.byte_at(self.pcur - 1) == b'\r'
-- 
2.43.0


From 14fc28fd60d6e66fc4b9455f9420261f2c3a6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:18 +0000
Subject: [PATCH 19/45] fix: put the leading zero of a prefixed integer after
 its sign

---
 src/lexer/parse_numeric.rs | 8 ++++----
 src/token_buf.rs           | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index ad10163..87c4720 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -67,7 +67,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +151,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -304,7 +304,7 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
+            tok.insert(start, b'0');
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..509bc86 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,9 +26,9 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
+    pub(crate) fn insert(&mut self, idx: usize, byte: u8) {
+        let mut tmp = self.bytes.as_raw().to_vec();
+        tmp.insert(idx, byte);
         self.bytes.set_raw(tmp);
     }
 
-- 
2.43.0


From 568ca9ecb4d89c159ff99420deceee5aee5664aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:49 +0000
Subject: [PATCH 20/45] fix: \8 and \9 are not octal escapes

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bedd207..cecab93 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -671,7 +671,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From 2ca798a71e56624c7275da9312e2b85020296e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 21/45] fix: remove a tab from a squiggly heredoc exactly when
 it fits in the common indentation

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 26e7366..d6a8bec 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -541,7 +541,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From b88061f67fb4d7a13f7be41bab7febebd1a7c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 22/45] fix: keep the white space after an interpolation in a
 squiggly heredoc

---
 src/builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d6a8bec..88960d3 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,8 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // text after an interpolation continues its line, it has no indentation
+            let mut at_line_start = true;
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +468,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if at_line_start {
+                            Self::dedent_string(value, dedent_level)
+                        } else {
+                            value
+                        };
+                        at_line_start = true;
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +490,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        at_line_start = false;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From bbd0434f3b79cd53d56ab923c246cee9d5973296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 23/45] fix: don't add the indentation of a blank heredoc line
 to the line after it

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index e920a07..8e44967 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -393,6 +393,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            // a line of white space only has no indentation
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From b939beeee8249f65b76d00a912d14a542dda9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 24/45] fix: start the body of a heredoc after that of the
 previous one on the same line

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 8e44967..69a6441 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -134,6 +134,8 @@ impl Lexer {
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        // the next line may come after the body of another heredoc
+        self.lval_start = self.lval_start.max(Some(self.buffer.pbeg));
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
-- 
2.43.0


From 658a1f8d490adb1a8c05b08e668da68949f6cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:06 +0000
Subject: [PATCH 25/45] fix: include the leading "#" of an interpolated
 variable in the location of a heredoc body

---
 src/builder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 88960d3..d4a50d3 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -422,7 +422,7 @@ impl Builder {
 
         let begin = &begin_t.token_value;
         if begin.len() >= 2 && begin[0] == b'<' && begin[1] == b'<' {
-            let heredoc_body_l = collection_expr(&parts).unwrap_or_else(|| self.loc(&end_t));
+            let heredoc_body_l = heredoc_body_expr(&parts).unwrap_or_else(|| self.loc(&end_t));
             let heredoc_end_l = self.loc(&end_t);
             let expression_l = begin_l;
 
@@ -4106,7 +4106,7 @@ impl Builder {
         let begin_t = begin_t.as_ref().expect("bug: begin_t must be Some");
         let end_t = end_t.as_ref().expect("heredoc must have end_t");
 
-        let heredoc_body_l = collection_expr(parts).unwrap_or_else(|| self.loc(end_t));
+        let heredoc_body_l = heredoc_body_expr(parts).unwrap_or_else(|| self.loc(end_t));
         let expression_l = self.loc(begin_t);
         let heredoc_end_l = self.loc(end_t);
 
@@ -4314,6 +4314,19 @@ pub(crate) fn collection_expr(nodes: &[Node]) -> Option<Loc> {
     join_maybe_exprs(&nodes.first(), &nodes.last())
 }
 
+pub(crate) fn heredoc_body_expr(parts: &[Node]) -> Option<Loc> {
+    let body_l = collection_expr(parts)?;
+    match parts.first() {
+        // location of a variable doesn't include "#" that interpolates it
+        Some(Node::Gvar(_))
+        | Some(Node::BackRef(_))
+        | Some(Node::NthRef(_))
+        | Some(Node::Ivar(_))
+        | Some(Node::Cvar(_)) => Some(body_l.adjust_begin(-1)),
+        _ => Some(body_l),
+    }
+}
+
 pub(crate) fn value(mut token: PoolValue<Token>) -> String {
     token.take_value().into_string().unwrap()
 }
-- 
2.43.0


From 78681f3e6191e7d998d0a4db7fbb420a566dbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:24 +0000
Subject: [PATCH 26/45] fix: recognise the names of magic comments in any
 letter case

---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 50aa5c4..9f09c04 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -315,7 +315,7 @@ impl Lexer {
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-                if &name_to_compare == name {
+                if name_to_compare.eq_ignore_ascii_case(name) {
                     if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
                         let encoding = match String::from_utf8(
                             self.buffer
-- 
2.43.0


From 5ac6d14e1282ffa29376dd284431376ff3ba521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 27/45] fix: keep the range of a shebang comment in step with
 the decoded source

---
 src/lexer/parse_magic_comment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 9f09c04..fad51ce 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -351,6 +351,10 @@ impl Lexer {
                                 vend = relocate(vend);
                                 str_ = relocate(str_);
                                 len = std::cmp::min(len, (pend - str_) as i32);
+                                // and so may the shebang, the only comment that can precede it
+                                if let Some(shebang) = self.comments.last_mut() {
+                                    shebang.location.end = pbeg;
+                                }
                             }
                             Err(err) => {
                                 self.yyerror1(
-- 
2.43.0


From 27651c1ec54f483fe0345a4779d0e8fedc1c058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:46 +0000
Subject: [PATCH 28/45] fix: read a shorthand hash label as a constant only
 when it is capitalised

---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d4a50d3..7889387 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -821,11 +821,11 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if label
+        let value = if !label
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
+            .is_uppercase()
         {
             Box::new(Node::Lvar(Lvar {
                 name: label,
-- 
2.43.0


From 766e2442aa4a639161b0a3fcdf5479af3c3a8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:46 +0000
Subject: [PATCH 29/45] fix: let a vertical tab indent a heredoc terminator

---
 src/source/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index ed2fb32..0c34de9 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -266,7 +266,7 @@ impl Buffer {
 
         if indent > 0 {
             while let Some(c) = self.input.byte_at(ptr) {
-                if !c.is_ascii_whitespace() {
+                if !c.is_ascii_whitespace() && c != 0x0b {
                     break;
                 }
                 ptr += 1;
-- 
2.43.0


From 4ae14b3e46e4a09349ebbb0b31b58b3863f38389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:46 +0000
Subject: [PATCH 30/45] fix: suggest the escape letter, not its number, for a
 misleading character literal

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index cecab93..3c04cbb 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -780,7 +780,7 @@ impl Lexer {
     pub(crate) fn warn_space_char(&mut self, c: u8, prefix: &'static str) {
         self.warn(
             DiagnosticMessage::InvalidCharacterSyntax {
-                suggestion: format!("{}\\{}", prefix, c),
+                suggestion: format!("{}\\{}", prefix, c as char),
             },
             self.current_loc(),
         )
-- 
2.43.0


From b96d258d988171ae7dce4554128eb01f4f1c1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:58 +0000
Subject: [PATCH 31/45] fix: reject a block given to super together with a
 block argument

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 7889387..e8fbadd 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2116,6 +2116,9 @@ impl Builder {
             Node::CSend(CSend { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Super(Super { args, .. }) => {
+                validate_block_and_block_arg(args)?;
+            }
             _ => {}
         }
 
-- 
2.43.0


From fa338f5ec9295d1550ab787f2f6175bb075677d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 32/45] fix: reject a hash pattern that repeats the key of a
 bare label

---
 src/builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index e8fbadd..ea969c9 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3624,8 +3624,18 @@ impl Builder {
 
     pub(crate) fn match_label(&self, p_kw_label: PKwLabel) -> Result<Box<Node>, ()> {
         match p_kw_label {
-            PKwLabel::PlainLabel(label_t) => self.match_hash_var(label_t),
+            PKwLabel::PlainLabel(label_t) => {
+                self.check_duplicate_pattern_key(
+                    clone_value(&label_t).as_str(),
+                    &self.loc(&label_t),
+                )?;
+                self.match_hash_var(label_t)
+            }
             PKwLabel::QuotedLabel((begin_t, parts, end_t)) => {
+                if let Some(key) = Self::static_string(&parts) {
+                    let label_loc = self.loc(&begin_t).join(&self.loc(&end_t));
+                    self.check_duplicate_pattern_key(&key, &label_loc)?;
+                }
                 self.match_hash_var_from_str(begin_t, parts, end_t)
             }
         }
-- 
2.43.0


From fc6f1eecd71e63f521d4870909c76ed60c6b5ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:11 +0000
Subject: [PATCH 33/45] fix: a method, class or module body inside a block is
 not part of the block

---
 src/builder.rs            | 4 ++--
 src/context.rs            | 4 ----
 src/max_numparam_stack.rs | 8 ++++++++
 src/parser/parse.y        | 2 +-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ea969c9..ee08a59 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3857,7 +3857,7 @@ impl Builder {
     }
 
     pub(crate) fn check_assignment_to_numparam(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let assigning_to_numparam = self.context.is_in_dynamic_block()
+        let assigning_to_numparam = self.max_numparam_stack.is_in_dynamic_scope()
             && matches!(
                 name,
                 "_1" | "_2" | "_3" | "_4" | "_5" | "_6" | "_7" | "_8" | "_9"
@@ -4270,7 +4270,7 @@ impl Builder {
             [b'_', n]
                 if (b'1'..=b'9').contains(&n)
                     && !self.static_env.is_declared(name)
-                    && self.context.is_in_dynamic_block() =>
+                    && self.max_numparam_stack.is_in_dynamic_scope() =>
             {
                 if true {
                     /* definitely an implicit param */
diff --git a/src/context.rs b/src/context.rs
index 8458fc6..0e3743d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -62,10 +62,6 @@ impl SharedContext {
         *self.value.borrow()
     }
 
-    pub(crate) fn is_in_dynamic_block(&self) -> bool {
-        self.in_block() || self.in_lambda()
-    }
-
     pub(crate) fn is_empty(&self) -> bool {
         self.value.borrow().is_empty()
     }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index cd36938..00c55c8 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -37,6 +37,14 @@ impl MaxNumparamStack {
         self.top() > 0
     }
 
+    // true if the innermost scope is a block or a lambda (and so can have numparams)
+    pub(crate) fn is_in_dynamic_scope(&self) -> bool {
+        match self.stack.borrow().last() {
+            Some(stack_item) => !stack_item.is_static,
+            None => false,
+        }
+    }
+
     pub(crate) fn register(&self, numparam: i32) {
         self.set(std::cmp::max(self.top(), numparam))
     }
diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..4116ad2 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -3590,7 +3590,7 @@ use crate::Loc;
 
         k_return: kRETURN
                     {
-                        if self.context.in_class() && !self.context.in_def() && !(self.context.in_block() || self.context.in_lambda()) {
+                        if self.context.in_class() && !self.context.in_def() && !self.max_numparam_stack.is_in_dynamic_scope() {
                             return self.yyerror(@1, DiagnosticMessage::InvalidReturnInClassOrModuleBody {});
                         }
                         $$ = $1;
-- 
2.43.0


From 75e82facf050a0f73aa03566dbe6739fda6985b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:40 +0000
Subject: [PATCH 34/45] fix: reject a numbered parameter already used in an
 outer or inner block, whatever its number

---
 src/builder.rs            | 49 +++++++++++----------------------------
 src/max_numparam_stack.rs | 34 +++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ee08a59..01dd727 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4268,47 +4268,24 @@ impl Builder {
     fn try_declare_numparam(&self, name: &str, loc: &Loc) -> bool {
         match name.as_bytes()[..] {
             [b'_', n]
-                if (b'1'..=b'9').contains(&n)
-                    && !self.static_env.is_declared(name)
-                    && self.max_numparam_stack.is_in_dynamic_scope() =>
+                if (b'1'..=b'9').contains(&n) && self.max_numparam_stack.is_in_dynamic_scope() =>
             {
-                if true {
-                    /* definitely an implicit param */
+                /* definitely an implicit param */
 
-                    if self.max_numparam_stack.has_ordinary_params() {
-                        self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
-                    }
-
-                    let mut raw_max_numparam_stack = self.max_numparam_stack.inner_clone();
-
-                    /* ignore current block scope */
-                    raw_max_numparam_stack.pop();
+                if self.max_numparam_stack.has_ordinary_params() {
+                    self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
+                }
 
-                    for outer_scope in raw_max_numparam_stack.iter().rev() {
-                        if outer_scope.is_static {
-                            /* found an outer scope that can't have numparams
-                            like def/class/etc */
-                            break;
-                        } else {
-                            let outer_scope_has_numparams = outer_scope.value > 0;
-
-                            if outer_scope_has_numparams {
-                                self.error(DiagnosticMessage::NumparamUsed {}, loc);
-                            } else {
-                                /* for now it's ok, but an outer scope can also be a block
-                                like proc { _1; proc { proc { proc { _2 }} }}
-                                with numparams, so we need to continue */
-                            }
-                        }
-                    }
+                if self.max_numparam_stack.has_numparams_in_outer_scope()
+                    || self.max_numparam_stack.has_numparams_in_inner_scope()
+                {
+                    self.error(DiagnosticMessage::NumparamUsed {}, loc);
+                }
 
-                    self.static_env.declare(name);
-                    self.max_numparam_stack.register((n - b'0') as i32);
+                self.static_env.declare(name);
+                self.max_numparam_stack.register((n - b'0') as i32);
 
-                    true
-                } else {
-                    false
-                }
+                true
             }
             _ => false,
         }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index 00c55c8..02ca90b 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -5,6 +5,8 @@ use std::rc::Rc;
 pub(crate) struct StackItem {
     pub(crate) value: i32,
     pub(crate) is_static: bool,
+    // one of the blocks of this scope that has already been closed has numparams
+    pub(crate) inner_has_numparams: bool,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -61,11 +63,37 @@ impl MaxNumparamStack {
         self.stack.borrow_mut().push(StackItem {
             value: 0,
             is_static,
+            inner_has_numparams: false,
         })
     }
 
     pub(crate) fn pop(&self) {
-        self.stack.borrow_mut().pop();
+        let mut stack = self.stack.borrow_mut();
+        let popped = stack.pop();
+        if let (Some(popped), Some(outer)) = (popped, stack.last_mut()) {
+            if !popped.is_static && (popped.value > 0 || popped.inner_has_numparams) {
+                outer.inner_has_numparams = true;
+            }
+        }
+    }
+
+    pub(crate) fn has_numparams_in_outer_scope(&self) -> bool {
+        self.stack
+            .borrow()
+            .iter()
+            .rev()
+            /* ignore current block scope */
+            .skip(1)
+            /* stop at an outer scope that can't have numparams like def/class/etc */
+            .take_while(|scope| !scope.is_static)
+            .any(|scope| scope.value > 0)
+    }
+
+    pub(crate) fn has_numparams_in_inner_scope(&self) -> bool {
+        match self.stack.borrow().last() {
+            Some(stack_item) => stack_item.inner_has_numparams,
+            None => false,
+        }
     }
 
     fn set(&self, value: i32) {
@@ -73,8 +101,4 @@ impl MaxNumparamStack {
         let len = stack.len();
         stack[len - 1].value = value;
     }
-
-    pub(crate) fn inner_clone(&self) -> Vec<StackItem> {
-        self.stack.borrow().clone()
-    }
 }
-- 
2.43.0


From c33c4528bbff1683f1a9c14503a3fdf702390cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:29 +0000
Subject: [PATCH 35/45] fix: accept keyword parameter and pattern key names
 that start with a caseless letter

---
 src/builder.rs     | 6 +++++-
 src/parser/parse.y | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 01dd727..37c2d6d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3925,7 +3925,11 @@ impl Builder {
             .expect("local variable name can't be empty");
         let mut rest = all_chars;
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        // any non-ascii character can be a part of the identifier
+        let can_start = |c: char| c == '_' || c.is_ascii_lowercase() || !c.is_ascii();
+        let can_continue = |c: char| c == '_' || c.is_ascii_alphanumeric() || !c.is_ascii();
+
+        if can_start(first) && !first.is_uppercase() && rest.all(can_continue) {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 4116ad2..074868d 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From 700154b776e616b3c6567d936061f2dae8ba6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:44 +0000
Subject: [PATCH 36/45] fix: give a lexer that is used on its own a token pool

---
 src/lexer/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 9b74f6a..3512880 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -82,6 +82,9 @@ pub struct Lexer {
 
     #[doc(hidden)]
     pub tokens_factory: PoolFactory<Token>,
+
+    // backs `tokens_factory` of a lexer that is not driven by a parser
+    _own_tokens_pool: Pool<Token>,
 }
 
 impl Lexer {
@@ -97,7 +100,11 @@ impl Lexer {
         Bytes: Into<Vec<u8>>,
         Name: Into<String>,
     {
+        let own_tokens_pool = Pool::new();
+
         Self {
+            tokens_factory: own_tokens_pool.factory(),
+            _own_tokens_pool: own_tokens_pool,
             cond: StackState::new("cond"),
             cmdarg: StackState::new("cmdarg"),
             lpar_beg: -1, /* make lambda_beginning_p() == FALSE at first */
-- 
2.43.0


From 437c6f1932f70c7c05fd9f3ceb3763f1af8999ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:15 +0000
Subject: [PATCH 37/45] fix: do not warn about a block argument that is plainly
 a symbol (foo &:bar)

---
 src/lexer/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 3512880..24a0fa0 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -603,7 +603,7 @@ impl Lexer {
                         if c != b':'
                             || {
                                 c = self.buffer.peekc_n(1);
-                                !c.is_eof()
+                                c.is_eof()
                             }
                             || !(c == b'\''
                                 || c == b'"'
-- 
2.43.0


From defcb8a9ab15983f7ff0073ede59fc24da88c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:15 +0000
Subject: [PATCH 38/45] fix: name the operator % in its warning, not %%

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index 49ccaf8..e663045 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -145,7 +145,7 @@ impl Lexer {
         self.buffer.pushback(c);
         self.warn_balanced(
             Self::tPERCENT,
-            "%%",
+            "%",
             "string literal",
             c,
             space_seen,
-- 
2.43.0


From 3fd559e3a866f6fbe226d4d704d08a38b515503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 39/45] fix: warn about a repeated regexp hash key that has
 options

---
 src/builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 37c2d6d..8e8984a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -926,8 +926,16 @@ impl Builder {
                                 options: options2,
                                 ..
                             }),
-                        ) if options1 == options2 => {
-                            parts1.len() == parts2.len()
+                        ) => {
+                            // two option lists are the same if their letters are,
+                            // no matter where they are written
+                            let letters = |options: &Option<Box<Node>>| match options.as_deref() {
+                                Some(Node::RegOpt(RegOpt { options, .. })) => options.clone(),
+                                _ => None,
+                            };
+
+                            letters(options1) == letters(options2)
+                                && parts1.len() == parts2.len()
                                 && parts1
                                     .iter()
                                     .zip(parts2.iter())
-- 
2.43.0


From 3bdfedf5e630b52dfe9853376cc68c735ec919cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 40/45] fix: warn only once about a hash key that repeats
 several earlier ones

---
 src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8e8984a..612c408 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -861,8 +861,8 @@ impl Builder {
         pairs: Vec<Node>,
         end_t: Option<PoolValue<Token>>,
     ) -> Box<Node> {
-        for i in 0..pairs.len() {
-            for j in i + 1..pairs.len() {
+        for j in 1..pairs.len() {
+            for i in 0..j {
                 let key1 = if let Node::Pair(Pair { key, .. }) = &pairs[i] {
                     &**key
                 } else {
@@ -950,6 +950,8 @@ impl Builder {
 
                 if do_warn {
                     self.warn(DiagnosticMessage::DuplicateHashKey {}, key2.expression());
+                    // once per key, no matter how many earlier keys are equal to it
+                    break;
                 }
             }
         }
-- 
2.43.0


From 59d6586f406edd5179c2786dc81dd1c95a0d0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 41/45] fix: compile regular expressions as UTF-8 before
 falling back to single bytes

With the onig feature every literal was compiled as ASCII, so group names,
characters classes and \u escapes outside ASCII were reported as errors and
their named captures were not declared.
---
 src/builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 612c408..04862b0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4016,9 +4016,14 @@ impl Builder {
             }
         }
 
-        let bytes = onig::EncodedBytes::ascii(source.as_bytes());
+        // Non-ASCII characters, group names and \u escapes are only valid in UTF-8,
+        // arbitrary byte escapes are only valid in a single-byte encoding
+        let regex = Regex::with_options(&source, reg_options, onig::Syntax::ruby()).or_else(|_| {
+            let bytes = onig::EncodedBytes::ascii(source.as_bytes());
+            Regex::with_options_and_encoding(bytes, reg_options, onig::Syntax::ruby())
+        });
 
-        match Regex::with_options_and_encoding(bytes, reg_options, onig::Syntax::ruby()) {
+        match regex {
             Ok(regex) => Some(regex),
             Err(err) => {
                 self.error(
-- 
2.43.0


From 9bde9e9b4e7f2a4f7317c1573ef55335232e276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:02 +0000
Subject: [PATCH 42/45] fix: brackets nested more than 64 levels deep in a loop
 condition or command argument lose the do that follows

---
 src/stack_state.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/stack_state.rs b/src/stack_state.rs
index bb9136e..989390a 100644
--- a/src/stack_state.rs
+++ b/src/stack_state.rs
@@ -1,34 +1,43 @@
 #[derive(Clone, Default)]
 pub struct StackState {
     name: &'static str,
-    stack: usize,
+    stack: Vec<bool>,
 }
 
 impl StackState {
     pub(crate) fn new(name: &'static str) -> Self {
-        Self { name, stack: 0 }
+        Self {
+            name,
+            stack: vec![],
+        }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.stack == 0
+        !self.stack.contains(&true)
     }
 
     pub fn push(&mut self, bit: bool) {
-        let bit_value = if bit { 1 } else { 0 };
-        self.stack = (self.stack << 1) | bit_value
+        self.stack.push(bit)
     }
 
     pub fn pop(&mut self) {
-        self.stack >>= 1;
+        self.stack.pop();
     }
 
     pub(crate) fn is_active(&self) -> bool {
-        (self.stack & 1) == 1
+        self.stack.last() == Some(&true)
     }
 }
 
 impl std::fmt::Debug for StackState {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        f.write_str(&format!("[{:b} <= {}]", self.stack, self.name))
+        let bits = self
+            .stack
+            .iter()
+            .skip_while(|bit| !**bit)
+            .map(|bit| if *bit { '1' } else { '0' })
+            .collect::<String>();
+        let bits = if bits.is_empty() { "0" } else { &bits };
+        f.write_str(&format!("[{} <= {}]", bits, self.name))
     }
 }
-- 
2.43.0


From ff1a4bbad5281be289097c8aae5f5c3e1ec4213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:19 +0000
Subject: [PATCH 43/45] fix: an empty key in a hash pattern is an error, not a
 panic

---
 src/builder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 04862b0..8acb33a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3929,17 +3929,18 @@ impl Builder {
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let mut all_chars = name.chars();
-        let first = all_chars
-            .next()
-            .expect("local variable name can't be empty");
-        let mut rest = all_chars;
+        let mut rest = name.chars();
 
         // any non-ascii character can be a part of the identifier
         let can_start = |c: char| c == '_' || c.is_ascii_lowercase() || !c.is_ascii();
         let can_continue = |c: char| c == '_' || c.is_ascii_alphanumeric() || !c.is_ascii();
 
-        if can_start(first) && !first.is_uppercase() && rest.all(can_continue) {
+        // a key can turn out to be empty, e.g. `{"#{""}":}`
+        let starts_well = rest
+            .next()
+            .map_or(false, |first| can_start(first) && !first.is_uppercase());
+
+        if starts_well && rest.all(can_continue) {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-- 
2.43.0


From f1210ce49c048b1a0a88fb60cd566fc7de8a8c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:03 +0000
Subject: [PATCH 44/45] fix: a dollar sign before any white space lacks a name

---
 src/lexer/parse_gvar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index 3a05edb..f2eae06 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -97,7 +97,7 @@ impl Lexer {
             _ => {
                 if !self.is_identchar() {
                     match c.as_option() {
-                        None | Some(b' ') => self.compile_error(DiagnosticMessage::GvarWithoutId {}, self.current_loc()),
+                        None | Some(b' ') | Some(b'\t'..=b'\r') => self.compile_error(DiagnosticMessage::GvarWithoutId {}, self.current_loc()),
                         Some(name) => {
                             // The following line comes from MRI, but it seems to be a bug
                             // self.buffer.pushback(c);
-- 
2.43.0


From d16aea5087ae77b90d0f162373df3e3c48b2fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:03 +0000
Subject: [PATCH 45/45] fix: a multi-byte character is not the delimiter of a
 percent literal

---
 src/lexer/parse_percent.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index e663045..074a2c0 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -6,17 +6,18 @@ use crate::DiagnosticMessage;
 use crate::{lex_states::*, LexState};
 
 impl Lexer {
-    fn percent_unknown(&mut self, term: MaybeByte) -> i32 {
+    fn percent_unknown(&mut self, term: MaybeByte, with_term: bool) -> i32 {
         self.buffer.pushback(term);
+        let mut loc = self.current_loc();
         let len = self.multibyte_char_len(self.buffer.pcur);
         match len {
             Some(len) => self.buffer.pcur += len,
             None => return Self::END_OF_INPUT,
         }
-        self.yyerror1(
-            DiagnosticMessage::UnknownTypeOfPercentString {},
-            self.current_loc().adjust_end(-1),
-        );
+        if with_term {
+            loc = self.current_loc();
+        }
+        self.yyerror1(DiagnosticMessage::UnknownTypeOfPercentString {}, loc);
         Self::END_OF_INPUT
     }
 
@@ -30,13 +31,13 @@ impl Lexer {
         if !c.is_alnum() {
             term = *c;
             if !c.is_ascii() {
-                return self.percent_unknown(term);
+                return self.percent_unknown(term, true);
             }
             *c = MaybeByte::new(b'Q');
         } else {
             term = self.nextc();
-            if term.is_alnum() {
-                return self.percent_unknown(term);
+            if term.is_alnum() || !(term.is_eof() || term.is_ascii()) {
+                return self.percent_unknown(term, false);
             }
         }
 
-- 
2.43.0

