From 0e1aeb30f1692cf852408c5c21c4c5582134fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/19] fix: string literals ending in an escaped backslash

The lexer only looked at the previous character to decide whether a quote is
escaped, so `"a\\\\"` was reported as an undelimited string.
---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..425498f 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = c == '\\' && !escaped;
                 }
             }
         }
-- 
2.43.0


From 22481226fa8c032f88e595585fcd99c6d80e0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 02/19] fix: optional access on a loop variable falls through
 to the outer scope

`{{ item?.missing }}` must evaluate to none, instead it continued the lookup in
the enclosing scopes.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From 095b05350bcd2a1519f6de206002e2520161e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/19] fix: number literals after a keyword are lexed as
 indexes

After an identifier the lexer stays in the path state, so the number in
`{% for x in 3 | range %}` was lexed as a list index.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 425498f..7cbedac 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From bd3362514c0f01a953838b2310c3ace405548e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 04/19] fix: whitespace trimming must not reach across the
 previous tag

If the previous end delimiter ends with whitespace and only whitespace follows
then trimming moved the end of the raw text before its start.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 7cbedac..c23cd3e 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From 4b0161e98ab034f5a87e9ddb83da3ee91859e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 05/19] fix: error line and column with non-ASCII text

The offset is in bytes but it was compared with display widths, which reported
the wrong line and column for anything after multi-byte text.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..c01ff95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
-- 
2.43.0


From c940fe58d6f7118786ba628d90fe70b52f4d0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 06/19] fix: error line number at the end of a source with a
 trailing newline

The excerpt showed the last line but it was labelled with the number of the
line after it.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index c01ff95..6ad0149 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -285,7 +285,7 @@ fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
         n += len;
     }
     (
-        lines.len(),
+        lines.len().saturating_sub(1),
         lines.last().map(|l| display_width(l)).unwrap_or(0),
     )
 }
-- 
2.43.0


From 793b6515b3b55829886859041b916d10a3f0073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 07/19] fix: error columns after tabs

Control characters like tabs were counted as having no width at all.
---
 src/error.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6ad0149..189ee58 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -292,7 +292,9 @@ fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
 
 #[cfg(feature = "unicode")]
 fn display_width(s: &str) -> usize {
-    unicode_width::UnicodeWidthStr::width(s)
+    s.chars()
+        .map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(1))
+        .sum()
 }
 
 #[cfg(not(feature = "unicode"))]
-- 
2.43.0


From 568f4aab2c008359d9d823ed1345646435013fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/19] fix: panic when formatting an error at a column above
 65535

The standard library limits formatting widths to 16 bits.
---
 src/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 189ee58..eac528c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -253,11 +253,10 @@ impl Pretty {
         let num = (self.ln + 1).to_string();
         let col = self.col + 1;
         let pad = display_width(&num);
-        let align = self.col + self.width;
-
         let z = "";
         let pipe = "|";
         let equals = "=";
+        let indent = " ".repeat(self.col);
         let underline = "^".repeat(self.width);
         let extra = "-".repeat(3_usize.saturating_sub(self.width));
         let name = name.unwrap_or("<anonymous>");
@@ -268,7 +267,7 @@ impl Pretty {
             "\n\n {z:pad$}--> {name}:{num}:{col}\
              \n {z:pad$} {pipe}\
              \n {num:>} {pipe} {text}\
-             \n {z:pad$} {pipe} {underline:>align$}{extra}\
+             \n {z:pad$} {pipe} {indent}{underline}{extra}\
              \n {z:pad$} {pipe}\
              \n {z:pad$} {equals} reason: {reason}\n",
         )
-- 
2.43.0


From bf9301db16e7209c78ede96d6b5c89a145524643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 09/19] fix: location of an invalid digit in a signed integer

The span of a signed literal includes the sign and any whitespace after it.
---
 src/compile/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..32ce1f6 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -682,7 +682,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    let m = span.n - digits.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From e332eaeceb44a4ca5030abfc83f1cc4ceb7869a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 10/19] fix: optional access on the loop object does not end
 the path

`loop?.missing.x` must evaluate to none like it does for any other map.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..eb1cbff 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From 5efe19b69b558b629aae88a324aebeb20d257a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 11/19] fix: empty comments are rejected

---
 src/compile/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 32ce1f6..973a703 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,9 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    if self.is_next(Token::Raw)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From 0473c54dbcd0566a36f0097a6496be6b10b5db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 12/19] fix: a number directly before a trimming end tag is
 rejected

The hyphen in `{{ 5-}}` was lexed as part of the number.
---
 src/compile/lex.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index c23cd3e..3c86c52 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -275,7 +275,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                     '"' => self.lex_string(iter, i)?,
                     c if c.is_ascii_digit() => match block_state {
                         BlockState::Path => self.lex_index(iter),
-                        BlockState::Unknown => self.lex_number(iter),
+                        BlockState::Unknown => self.lex_number(iter, i),
                     },
                     c if is_whitespace(c) => self.lex_whitespace(iter),
                     c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),
@@ -386,11 +386,26 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         }
     }
 
-    fn lex_number<I>(&mut self, iter: I) -> (Token, usize)
+    fn lex_number<I>(&mut self, iter: I, i: usize) -> (Token, usize)
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        let mut j = self.lex_while(iter, is_number);
+        // An end tag might start with a character that is valid in a number,
+        // for example `-}}`.
+        for (d, c) in self.source[i..j].char_indices() {
+            if !c.is_ascii_alphanumeric()
+                && self
+                    .engine
+                    .searcher
+                    .starts_with(self.source, i + d)
+                    .is_some()
+            {
+                j = i + d;
+                break;
+            }
+        }
+        (Token::Number, j)
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0


From f0def747213acbf13e7e31435f4ec3d39ab1058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 13/19] fix: with variables are looked up by the wrong name in
 an included template

---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..81d9b3e 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -32,7 +32,7 @@ impl std::fmt::Debug for State<'_> {
         match self {
             Self::ValueFn(_) => f.debug_tuple("ValueFn").field(&(..)).finish(),
             Self::Scope(scope) => f.debug_tuple("Scope").field(scope).finish(),
-            Self::Var(ident, value) => f.debug_tuple("Var").field(ident).field(value).finish(),
+            Self::Var(name, value) => f.debug_tuple("Var").field(name).field(value).finish(),
             Self::Loop(state) => f.debug_tuple("Loop").field(state).finish(),
             Self::Boundary => write!(f, "Boundary"),
         }
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if &source[v.first().access.span()] == *name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 0dd7d67ec92e9b365298917d4001e5010ca05e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 14/19] fix: end tags that start with whitespace are not found
 inside a run of whitespace

---
 src/compile/lex.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 3c86c52..5ec3711 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -277,7 +277,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                         BlockState::Path => self.lex_index(iter),
                         BlockState::Unknown => self.lex_number(iter, i),
                     },
-                    c if is_whitespace(c) => self.lex_whitespace(iter),
+                    c if is_whitespace(c) => self.lex_whitespace(iter, i),
                     c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),
 
                     // Any other character...
@@ -415,11 +415,16 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         (Token::Index, self.lex_while(iter, is_index))
     }
 
-    fn lex_whitespace<I>(&mut self, iter: I) -> (Token, usize)
+    fn lex_whitespace<I>(&mut self, iter: I, i: usize) -> (Token, usize)
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Whitespace, self.lex_while(iter, is_whitespace))
+        let j = self.lex_while(iter, is_whitespace);
+        // An end tag might start with whitespace.
+        let j = (i + 1..j)
+            .find(|&k| self.engine.searcher.starts_with(self.source, k).is_some())
+            .unwrap_or(j);
+        (Token::Whitespace, j)
     }
 
     fn lex_ident_or_keyword<I>(&mut self, iter: I, i: usize) -> (Token, usize)
-- 
2.43.0


From 79373a32efa1eb2911378e79f001149fb64cb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 15/19] fix: a write error ignored by a formatter is lost and
 later output is still written

---
 src/fmt.rs        | 11 +++++------
 src/render/mod.rs |  8 +++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index db14832..8f869e7 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -183,6 +183,10 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
+        // A formatter might have ignored an earlier error.
+        if self.err.is_some() {
+            return Err(fmt::Error);
+        }
         self.writer.write_all(s.as_bytes()).map_err(|e| {
             self.err = Some(e);
             fmt::Error
@@ -191,12 +195,7 @@ where
 
     #[inline]
     fn write_char(&mut self, c: char) -> fmt::Result {
-        self.writer
-            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
-            .map_err(|e| {
-                self.err = Some(e);
-                fmt::Error
-            })
+        self.write_str(c.encode_utf8(&mut [0; 4]))
     }
 }
 
diff --git a/src/render/mod.rs b/src/render/mod.rs
index e9f7118..579670b 100644
--- a/src/render/mod.rs
+++ b/src/render/mod.rs
@@ -28,9 +28,11 @@ where
 {
     let mut w = Writer::new(writer);
     let mut f = Formatter::with_writer(&mut w);
-    RendererImpl { inner, stack }
-        .render(&mut f)
-        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))
+    let result = RendererImpl { inner, stack }.render(&mut f);
+    match w.take_err() {
+        Some(err) => Err(Error::from(err)),
+        None => result,
+    }
 }
 
 type TemplateFn<'a> = dyn FnMut(&str) -> std::result::Result<&'a crate::Template<'a>, String> + 'a;
-- 
2.43.0


From 1e79ac222c196e48dbb3c0953f18687a3b4a722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 16/19] fix: looking for an end tag in whitespace and numbers
 takes quadratic time

---
 src/compile/lex.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 5ec3711..5f77808 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -393,17 +393,16 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         let mut j = self.lex_while(iter, is_number);
         // An end tag might start with a character that is valid in a number,
         // for example `-}}`.
-        for (d, c) in self.source[i..j].char_indices() {
-            if !c.is_ascii_alphanumeric()
-                && self
-                    .engine
-                    .searcher
-                    .starts_with(self.source, i + d)
-                    .is_some()
-            {
-                j = i + d;
+        let mut at = i;
+        while let Some((_, k, _)) = self.engine.searcher.find_at(self.source, at) {
+            if k >= j {
                 break;
             }
+            if !self.source.as_bytes()[k].is_ascii_alphanumeric() {
+                j = k;
+                break;
+            }
+            at = k + 1;
         }
         (Token::Number, j)
     }
@@ -421,9 +420,10 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     {
         let j = self.lex_while(iter, is_whitespace);
         // An end tag might start with whitespace.
-        let j = (i + 1..j)
-            .find(|&k| self.engine.searcher.starts_with(self.source, k).is_some())
-            .unwrap_or(j);
+        let j = match self.engine.searcher.find_at(self.source, i + 1) {
+            Some((_, k, _)) if k < j => k,
+            _ => j,
+        };
         (Token::Whitespace, j)
     }
 
-- 
2.43.0


From 46be97144736fd0e8209600d1d2543f44e7e5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 17/19] fix: an integer prefix without digits (0x, 0b_) was
 accepted as zero

---
 src/compile/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 973a703..77cb407 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -705,6 +705,13 @@ impl<'engine, 'source> Parser<'engine, 'source> {
                 }
                 .ok_or_else(err)
             })?;
+        if digits[i..].iter().all(|&d| d == b'_') {
+            return Err(Error::syntax(
+                format!("expected digits in base {radix} literal"),
+                self.source(),
+                span,
+            ));
+        }
         let value = Value::Integer(int);
         Ok(ast::Literal { value, span })
     }
-- 
2.43.0


From adad33d472f1251b792e864b8f2e8a18152bf1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:46 +0000
Subject: [PATCH 18/19] fix: compiling a tag takes time quadratic in its length

---
 src/compile/lex.rs        | 18 +++++++-----------
 src/compile/search/mod.rs | 13 +++++++++++--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 5f77808..e9ec03e 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -393,16 +393,13 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         let mut j = self.lex_while(iter, is_number);
         // An end tag might start with a character that is valid in a number,
         // for example `-}}`.
-        let mut at = i;
-        while let Some((_, k, _)) = self.engine.searcher.find_at(self.source, at) {
-            if k >= j {
-                break;
-            }
-            if !self.source.as_bytes()[k].is_ascii_alphanumeric() {
+        for k in i..j {
+            if !self.source.as_bytes()[k].is_ascii_alphanumeric()
+                && self.engine.searcher.starts_with(self.source, k).is_some()
+            {
                 j = k;
                 break;
             }
-            at = k + 1;
         }
         (Token::Number, j)
     }
@@ -420,10 +417,9 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     {
         let j = self.lex_while(iter, is_whitespace);
         // An end tag might start with whitespace.
-        let j = match self.engine.searcher.find_at(self.source, i + 1) {
-            Some((_, k, _)) if k < j => k,
-            _ => j,
-        };
+        let j = (i + 1..j)
+            .find(|&k| self.engine.searcher.starts_with(self.source, k).is_some())
+            .unwrap_or(j);
         (Token::Whitespace, j)
     }
 
diff --git a/src/compile/search/mod.rs b/src/compile/search/mod.rs
index 9cb308b..19d4cf1 100644
--- a/src/compile/search/mod.rs
+++ b/src/compile/search/mod.rs
@@ -6,12 +6,18 @@ use crate::types::syntax::{Kind, Syntax};
 #[cfg_attr(internal_debug, derive(Debug))]
 pub struct Searcher {
     imp: AhoCorasick,
+    /// The length of the longest pattern.
+    max_len: usize,
 }
 
 impl Searcher {
     pub fn new(syntax: Syntax) -> Self {
+        let max_len = syntax.patterns.iter().map(|(_, p)| p.len()).max();
         let imp = AhoCorasick::new(syntax.patterns);
-        Self { imp }
+        Self {
+            imp,
+            max_len: max_len.unwrap_or(0),
+        }
     }
 
     pub fn find_at<T>(&self, haystack: T, at: usize) -> Option<(Kind, usize, usize)>
@@ -28,7 +34,10 @@ impl Searcher {
     where
         T: AsRef<[u8]>,
     {
-        let (kind, i, j) = self.find_at(haystack, at)?;
+        // There is no need to look further than a match at `at` can reach.
+        let haystack = haystack.as_ref();
+        let end = haystack.len().min(at.saturating_add(self.max_len));
+        let (kind, i, j) = self.find_at(&haystack[..end], at)?;
         if at == i {
             Some((kind, j))
         } else {
-- 
2.43.0


From 3850497a95d128c4757464237e8442459e14c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 19/19] fix: compiling float literals takes time quadratic in
 the length of the source

---
 src/compile/parse.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 77cb407..2ffe438 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -656,13 +656,13 @@ impl<'engine, 'source> Parser<'engine, 'source> {
     ) -> Result<ast::Literal> {
         match self.parse_literal_integer(raw, span, sign) {
             Ok(lit) => Ok(lit),
-            Err(err) => match self.parse_literal_float(raw, span, sign) {
+            Err((reason, at)) => match self.parse_literal_float(raw, span, sign) {
                 Ok(lit) => Ok(lit),
                 Err(err2) => {
                     if raw.contains(['.', '-', '+']) {
                         Err(err2)
                     } else {
-                        Err(err)
+                        Err(Error::syntax(reason, self.source(), at))
                     }
                 }
             },
@@ -670,7 +670,15 @@ impl<'engine, 'source> Parser<'engine, 'source> {
     }
 
     /// Parse an integer.
-    fn parse_literal_integer(&self, raw: &str, span: Span, sign: Sign) -> Result<ast::Literal> {
+    ///
+    /// The literal might still be a float, so this only returns the reason and
+    /// location of an error and does not construct it.
+    fn parse_literal_integer(
+        &self,
+        raw: &str,
+        span: Span,
+        sign: Sign,
+    ) -> std::result::Result<ast::Literal, (String, Span)> {
         let digits = raw.as_bytes();
         let (i, radix) = match digits {
             [b'0', b'b', ..] => (2, 2),
@@ -685,18 +693,12 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
                     let m = span.n - digits.len() + i + j;
-                    Error::syntax(
-                        format!("invalid digit for base {radix} literal"),
-                        self.source(),
-                        m..m + 1,
-                    )
+                    let reason = format!("invalid digit for base {radix} literal");
+                    (reason, Span::from(m..m + 1))
                 })?;
                 let err = || {
-                    Error::syntax(
-                        format!("base {radix} literal out of range for 64-bit integer"),
-                        self.source(),
-                        span,
-                    )
+                    let reason = format!("base {radix} literal out of range for 64-bit integer");
+                    (reason, span)
                 };
                 let value = acc.checked_mul(radix.into()).ok_or_else(err)?;
                 match sign {
@@ -706,11 +708,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
                 .ok_or_else(err)
             })?;
         if digits[i..].iter().all(|&d| d == b'_') {
-            return Err(Error::syntax(
-                format!("expected digits in base {radix} literal"),
-                self.source(),
-                span,
-            ));
+            return Err((format!("expected digits in base {radix} literal"), span));
         }
         let value = Value::Integer(int);
         Ok(ast::Literal { value, span })
-- 
2.43.0

