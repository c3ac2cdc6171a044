From 0d689eaf3d548c3048369d446873456211b5b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 01/21] fix: keep the initial and target states of NFA
 fragments free of other edges

The Kleene closure marked the initial state of its operand as final, and
normalize() reused a final state that may have output edges as the target
state, so that a*|b matched 'aab' as b, (a*b)* matched 'a' and (a*|b)c
matched 'bac'.
---
 laps_regex/src/nfa.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..11643f9 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -54,8 +54,14 @@ where
         // create a edge to the initial state
         let init = nfa.fa.init_id();
         nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
+        nfa.fa.set_final_state(id);
+        // create a new initial state as a final state, the old one can not be
+        // reused because it may be reached in the middle of a match
+        let mut fa = MultiFA::new();
+        fa.init_mut().add(None, init);
+        fa.set_final_state(fa.init_id());
+        fa.union(nfa.fa);
+        nfa.fa = fa;
         nfa
       }
     }
@@ -113,27 +119,14 @@ where
   ///
   /// Returns the normal state ID.
   fn normalize(&mut self) -> usize {
-    // try to get an untagged final state
-    let untagged = self
-      .fa
-      .finals()
-      .iter()
-      .copied()
-      .find(|id| !self.tags.contains_key(id));
-    // get the target state id
-    let target = if let Some(untagged) = untagged {
-      self.fa.set_normal_state(untagged);
-      untagged
-    } else {
-      self.fa.add_state()
-    };
+    // get the target state id, do not reuse any of the final states
+    // because they may have output edges
+    let target = self.fa.add_state();
     // add edges to the target state
     for id in self.fa.finals().clone() {
-      if id != target {
-        self.fa.state_mut(id).unwrap().add(None, target);
-        if !self.tags.contains_key(&id) {
-          self.fa.set_normal_state(id);
-        }
+      self.fa.state_mut(id).unwrap().add(None, target);
+      if !self.tags.contains_key(&id) {
+        self.fa.set_normal_state(id);
       }
     }
     target
-- 
2.43.0


From 32fc7c88110e00ee4513745f6d356647ce24bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 02/21] fix: do not panic in the table of a matcher that
 matches the empty string only

---
 laps_regex/src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..3717716 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -36,7 +36,7 @@ impl<S, T> StateTransTable<S, T> {
   {
     let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
     // get number of states
-    let num_states = trans_table[0].len();
+    let num_states = trans_table.first().map_or(1, Vec::len);
     // get the final table
     let table = trans_table
       .into_iter()
-- 
2.43.0


From adc22d3f054814e5fb66a58828695dbeadfdc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 03/21] fix: correct the last char in SymbolOp::next for char

'\u{10fff}' has a next char and '\u{10ffff}' has none.
---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From f4d39dd9a41bf87deca81198c6871a1a696a923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 04/21] fix: do not overflow in SymbolOp for u8

then_some evaluates its argument eagerly, so regexes on byte 0xff
panicked when overflow checks are on.
---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..0842d32 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -571,10 +571,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From 447fe910a00c98c3f33439440bd4a028f79a162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 05/21] fix: prefer the smallest tag when regexes with
 different tags overlap

The optimizer removed duplicate alternatives regardless of their tags, so
the tag of a shared alternative was the first (or last) added one.
---
 laps_regex/src/mir.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 0842d32..77c33b0 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,27 +351,22 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
     // optimize all sub-expressions, flatten nested alternations
     // and remove duplicate expressions
     let mut new_a = Vec::new();
     let mut set = HashSet::new();
-    for (e, _) in a {
-      // get the tag of the current expresson
-      let t = tagged_exps.get(&e).cloned();
+    for (e, t) in a {
       // optimize, and handle by kind
       match e.opt_without_rebuild()? {
         Self::Alter(a) => new_a.extend(
           a.into_iter()
-            .filter_map(|(e, inner_t)| set.insert(e.clone()).then(|| (e, t.clone().or(inner_t)))),
+            .map(|(e, inner_t)| (e, t.clone().or(inner_t)))
+            .filter(|et| set.insert(et.clone())),
         ),
         e => {
-          if set.insert(e.clone()) {
-            new_a.push((e, t));
+          let et = (e, t);
+          if set.insert(et.clone()) {
+            new_a.push(et);
           }
         }
       }
-- 
2.43.0


From 6b5db782b0aed5e5b040110145668013bfea8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 06/21] fix: do not lose bytes when a read ends inside of a
 character

A read that returned only a part of a multi-byte character was reported as
invalid UTF-8 (or dropped) although the rest of the character follows, and
invalid bytes at the start of a read were lost after being reported.
---
 src/reader.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..906ca3d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,12 +60,19 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
+    // read bytes to buffer, until the first character is complete
+    let count = loop {
+      let read = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      // keep all of the bytes in the buffer even if an error occurs
+      self.byte_buf_offset += read;
+      match from_utf8(&self.byte_buf[..self.byte_buf_offset]) {
+        Err(e) if read != 0 && e.valid_up_to() == 0 && e.error_len().is_none() => {}
+        _ => break self.byte_buf_offset,
+      }
+    };
     // handle EOF
     if count == 0 {
       return Ok((None, loc));
-- 
2.43.0


From 92d9e751186c661f092bd154d584abfe160f95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 07/21] fix: do not lose the peeked tokens if an error occurs
 in peek2 or peek_n

---
 src/token.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..9efb99f 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,10 +157,12 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
-    self.unread(token2.clone());
+    let token2 = self.next_token();
+    if let Ok(token2) = &token2 {
+      self.unread(token2.clone());
+    }
     self.unread(token1.clone());
-    Ok((token1, token2))
+    Ok((token1, token2?))
   }
 
   /// Peeks the next N tokens from the token stream.
@@ -170,11 +172,10 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| self.next_token().map(|t| v.push(t)));
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From 8f313ad26f888a23690ed14253b12ede232be89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 08/21] fix: do not lose the prefix token if an error occurs in
 TokenPrefix::maybe

Also in OptTokenPrefix::maybe.
---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From e1e569ec920c2190e29dc9ae6e1c3748db09e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 09/21] fix: make it compile without feature logger

The error and warning numbers are atomic integers now.
---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From 112e9017567b767042d6799e59058c7737859447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 10/21] fix: do not panic when printing the line of an unusual
 span

The first character in the line may be zero-width (such as a BOM), and
set_line_col may set the line number to zero or to a previous line.
---
 src/span.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..5de3f8f 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -428,7 +428,8 @@ impl Span {
   fn print_file_info(&self, color: Color) {
     let file_type = &self.status.file_type;
     eprintln!("  {} {file_type}:{}", "at".blue(), self.start);
-    if self.start.col > 0 && self.end.col > 0 {
+    let is_valid = 0 < self.start.line && self.start.line <= self.end.line;
+    if is_valid && self.start.col > 0 && self.end.col > 0 {
       if let FileType::File(path) = file_type {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
@@ -456,8 +457,9 @@ impl Span {
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    // the first character may be a zero-width character
+    let leading = c1.saturating_sub(1);
+    let len = std::cmp::max(c2 - leading, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
-- 
2.43.0


From 66d3d7357fa31da710b7a27b62e1b9048d3596f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 11/21] fix: reject escape '\u{}' that has no digits in
 literals

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..3452742 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -324,14 +324,14 @@ where
           return ParseResult::Error;
         }
         // get hex value
-        let mut hex = 0u32;
+        let mut hex = None;
         for c in iter {
           match c.to_digit(16) {
-            Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+            Some(h) => match hex.unwrap_or(0u32).checked_mul(16) {
+              Some(h16) => hex = Some(h16 + h),
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' => match hex.and_then(char::from_u32) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From 766a1947d115f319afd8cf4adb65ab2c55c39f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 12/21] fix: make the entries of the lexer table wide enough
 for the rejection mark

The mark is the number of states, so it was truncated to state 0 in lexers
that have exactly 256 (or 65536) states.
---
 laps_macros/src/tokenize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..05c748e 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -410,7 +410,8 @@ impl RegexImpls {
     if self.num_states <= 1 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // `num_states` is also in the table, it represents no next state
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From c92dfc01be4288a246de0af243c07108c345a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 13/21] fix: parse the minimum values of signed integers in
 signed_int_literal

---
 src/lexer.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 3452742..2cc6b3d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,6 +99,14 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
+  let (radix, digits) = radix_and_digits(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Checks if the given string is a valid integer literal,
+/// and returns its radix and digits.
+fn radix_and_digits(s: &str) -> Option<(u32, &str)> {
   // check if is a valid integer literal
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
@@ -118,8 +126,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((radix, &s[starts_from..]))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -148,8 +155,14 @@ where
   T: IntLiteral,
 {
   let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
+  if first == '-' {
+    // the minimum value of signed integers has no corresponding positive value
+    int_literal(&s[1..]).map(T::wrapping_neg).or_else(|| {
+      let (radix, digits) = radix_and_digits(&s[1..])?;
+      T::from_str_radix(&format!("-{digits}"), radix).ok()
+    })
+  } else if first == '+' {
+    int_literal(&s[1..])
   } else {
     int_literal(s)
   }
-- 
2.43.0


From b7c71c925dcf6aac4979d51dd4c246ccf7e919c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 14/21] fix: mark all columns of a wide character at the start
 of a span

---
 src/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 5de3f8f..cd4b668 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -130,14 +130,14 @@ macro_rules! get_line_str {
       _ => c.width().unwrap_or(0),
     });
     let mut count1 = 0;
-    for _ in 0..col1 {
+    for _ in 1..col1 {
       count1 += match iter.next() {
         Some(n) => n,
         None => break,
       };
     }
     let mut count2 = count1;
-    for _ in col1..col2 {
+    for _ in col1 - 1..std::cmp::max(col1, col2) {
       count2 += match iter.next() {
         Some(n) => n,
         None => break,
@@ -457,8 +457,8 @@ impl Span {
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    // the first character may be a zero-width character
-    let leading = c1.saturating_sub(1);
+    // mark the previous column if there is nothing to mark
+    let leading = if c1 < c2 { c1 } else { c1.saturating_sub(1) };
     let len = std::cmp::max(c2 - leading, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
-- 
2.43.0


From 4b3592dc24698a4ccf7a5a1b72c85adbea1b5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 15/21] fix: do not panic when printing spans with very large
 columns or lines

---
 src/span.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index cd4b668..d53683d 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -464,8 +464,8 @@ impl Span {
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -479,7 +479,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = ((self.end.line as usize + 1) as f32).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
@@ -489,7 +489,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", ("_".repeat(start) + "^").color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -520,7 +520,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", ("_".repeat(end) + "^").color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From 20179114c3890bf0fb1a5378f914391601f0177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 16/21] fix: allow other attributes behind regex, skip and eof
 of a variant

---
 laps_macros/src/tokenize.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 05c748e..391e5d7 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,18 +135,13 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let new_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.replace(new_attr).is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
-- 
2.43.0


From 0828327ac168becce1291cbb3936ad0df338b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 17/21] fix: derive Tokenize for enums that are named Kind or
 Token

---
 laps_macros/src/tokenize.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 391e5d7..82bc2c7 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -296,11 +296,11 @@ impl RegexImpls {
     let table_def = self.table_def();
     let equiv_id = self.equiv_id(&info);
     let num_states = self.num_states;
-    let token_result = Self::token_result(&info);
+    let token_result = Self::token_result(&info, name);
     let is_final = self.is_final();
     let init_id = self.init_id;
     let buf_def = Self::buf_def(&info);
-    let eof_token = Self::eof_token(&info);
+    let eof_token = Self::eof_token(&info, name);
     Ok(quote! {
       use std::option::Option::{self, *};
       use std::result::Result::*;
@@ -309,9 +309,6 @@ impl RegexImpls {
       use laps::return_error;
       use laps::span::{Result, Span};
 
-      type Kind #impl_generics = #name #ty_generics;
-      type Token #impl_generics = laps::token::Token<Kind #ty_generics>;
-
       struct LexerResult {
         last_state: usize,
         buf: #buf_ty,
@@ -320,7 +317,7 @@ impl RegexImpls {
       }
 
       enum TokenResult #impl_generics #where_clause {
-        Token(Token #ty_generics),
+        Token(laps::token::Token<#name #ty_generics>),
         Skip,
         Unknown,
       }
@@ -459,7 +456,7 @@ impl RegexImpls {
   }
 
   /// Generates tag to token result mappings.
-  fn token_result(info: &EnumInfo) -> TokenStream2 {
+  fn token_result(info: &EnumInfo, name: &Ident) -> TokenStream2 {
     let tokens = info
       .vars
       .iter()
@@ -477,12 +474,12 @@ impl RegexImpls {
           };
           let ident = &v.ident;
           let kind = match &v.fields {
-            FieldInfo::Unit => quote!(Kind::#ident),
-            FieldInfo::UnnamedUnit => quote!(Kind::#ident()),
-            FieldInfo::Unnamed => quote!(Kind::#ident(#field)),
+            FieldInfo::Unit => quote!(#name::#ident),
+            FieldInfo::UnnamedUnit => quote!(#name::#ident()),
+            FieldInfo::Unnamed => quote!(#name::#ident(#field)),
           };
           Some(
-            quote!(if tag == #i { return Ok(TokenResult::Token(Token::new(#kind, span.clone()))) }),
+            quote!(if tag == #i { return Ok(TokenResult::Token(laps::token::Token::new(#kind, span.clone()))) }),
           )
         }
         Some(VariantAttr::Skip(_)) => Some(quote!(if tag == #i { return Ok(TokenResult::Skip) })),
@@ -518,14 +515,14 @@ impl RegexImpls {
   }
 
   /// Generates a EOF token.
-  fn eof_token(info: &EnumInfo) -> TokenStream2 {
+  fn eof_token(info: &EnumInfo, name: &Ident) -> TokenStream2 {
     // get token kind of EOF
     let eof = info.vars.iter().find_map(|v| match v.attr {
       Some(VariantAttr::Eof) => {
         let ident = &v.ident;
         match v.fields {
-          FieldInfo::Unit => Some(quote!(Kind::#ident)),
-          FieldInfo::UnnamedUnit => Some(quote!(Kind::#ident())),
+          FieldInfo::Unit => Some(quote!(#name::#ident)),
+          FieldInfo::UnnamedUnit => Some(quote!(#name::#ident())),
           _ => unreachable!(),
         }
       }
@@ -533,7 +530,7 @@ impl RegexImpls {
     });
     // generate token
     match eof {
-      Some(eof) => quote!(return Ok(Token::new(#eof, span))),
+      Some(eof) => quote!(return Ok(laps::token::Token::new(#eof, span))),
       None => quote!(return_error!(span, "unexpected end-of-file")),
     }
   }
-- 
2.43.0


From ff1ff2371dc04f4a130099c452b190b0650539f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 18/21] fix: derive Spanned for fields with raw identifiers

---
 laps_macros/src/spanned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..9e7cdc9 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -3,8 +3,8 @@ use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
-  punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
-  Field, Fields, Meta, Result, Token, Variant,
+  ext::IdentExt, punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct,
+  DeriveInput, Field, Fields, Meta, Result, Token, Variant,
 };
 
 /// Entry function of `#[derive(Spanned)]`.
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = Ident::new(&format!("_{}", id.unraw()), span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From 4b458cb5b3745e3d2434262d7f6f3b70c7a4bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 19/21] fix: allow raw identifiers as names of token_ast macros

---
 laps_macros/src/token_ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..f090220 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Ident, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
   braced, bracketed,
+  ext::IdentExt,
   parse::{Parse, ParseStream},
   punctuated::{Pair, Punctuated},
   spanned::Spanned,
@@ -236,7 +237,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
     })
     .collect::<Result<_>>()?;
   let vis = &input.vis;
-  let mod_name = ident(&format!("__token_ast_{}", input.name));
+  let mod_name = ident(&format!("__token_ast_{}", input.name.unraw()));
   let ast_defs = quote! {
     #[doc(hidden)]
     #[allow(non_snake_case)]
-- 
2.43.0


From b5f466368be2853e332c46f919d94bb44b89a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 20/21] fix: call variants with raw identifiers by their names

---
 laps_macros/src/token_kind.rs | 4 ++--
 laps_macros/src/tokenize.rs   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..d9747bd 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -2,7 +2,7 @@ use crate::utils::{camel_to_lower, parse_doc_comments, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
-use syn::{Fields, ItemEnum, Result};
+use syn::{ext::IdentExt, Fields, ItemEnum, Result};
 
 /// Entry function of `#[token_kind]`.
 pub fn token_kind(attr: TokenStream, item: TokenStream) -> Result<TokenStream> {
@@ -72,7 +72,7 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
   for variant in &input.variants {
     let ident = &variant.ident;
     let prompt = parse_doc_comments(&variant.attrs).map_or_else(
-      || camel_to_lower(ident.to_string()),
+      || camel_to_lower(ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 82bc2c7..5fc1fb2 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -5,6 +5,7 @@ use proc_macro::TokenStream;
 use proc_macro2::{Span, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
+  ext::IdentExt,
   parse::{Parse, ParseStream},
   spanned::Spanned,
   Data, DeriveInput, Expr, Fields, Ident, ImplGenerics, LitBool, LitStr, Meta, Result, Token, Type,
@@ -123,7 +124,7 @@ impl VariantInfo {
     let fields = FieldInfo::new(&v.fields)?;
     // collect error message
     let err = parse_doc_comments(&v.attrs).map_or_else(
-      || camel_to_lower(v.ident.to_string()),
+      || camel_to_lower(v.ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
-- 
2.43.0


From 48be7176cf94ab8769f48f5776abf9e05077f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 21/21] fix: ask the predicate of collect_with_span_until about
 each character once

---
 src/input.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4a6521b..3c991ca 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -134,16 +134,14 @@ pub trait InputStream {
     F: FnMut(&Self::CharType) -> bool,
   {
     let mut v = Vec::new();
-    let mut span = match self.peek_with_span()? {
-      (Some(c), span) if !f(&c) => span,
-      (_, span) => return Ok((v, span)),
-    };
-    while let Some(c) = self.peek()? {
+    let (mut next, mut span) = self.peek_with_span()?;
+    while let Some(c) = next {
       if f(&c) {
         break;
       }
       v.push(c);
       span.update_end(self.next_span()?);
+      next = self.peek()?;
     }
     Ok((v, span))
   }
-- 
2.43.0

