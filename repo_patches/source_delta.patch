From b958df06313b695829eded404264a2f8341e550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 001/112] fix: recognise include and ifdef/ifndef directives
 with a one-character target

---
 core/src/regx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..2bc4a5b 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -26,9 +26,9 @@ lazy_static! {
 // directives
 lazy_static! {
   pub static ref DIRECTIVE_INCLUDE: Regex =
-    Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+    Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   pub static ref DIRECTIVE_IFDEF: Regex =
-    Regex::new(r#"^ifn?def::([^\[]+[^\[\s])\[(.*)\]$"#).unwrap();
+    Regex::new(r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]$"#).unwrap();
   pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]$"#).unwrap();
 }
 
-- 
2.43.0


From e900b4ff0f6fa21ac3a5f18a16af07f2813c1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 002/112] fix: nest block conditionals properly when skipping
 and when matching a named endif

---
 parser/src/line.rs                   | 14 +++++++++
 parser/src/tasks/directives/ifdef.rs | 44 ++++++++++++----------------
 parser/src/tasks/directives/mod.rs   |  1 +
 3 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..83871eb 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1018,6 +1018,20 @@ impl<'arena> Line<'arena> {
     self.directive_endif_target().is_some()
   }
 
+  /// does the line open a conditional that must be closed by an `endif` line?
+  pub fn opens_conditional_directive(&self) -> bool {
+    if !self.starts(TokenKind::Directive) {
+      return false;
+    }
+    let src = self.reassemble_src();
+    regx::DIRECTIVE_IFDEF
+      .captures(&src)
+      .is_some_and(|captures| captures[2].is_empty())
+      || regx::DIRECTIVE_IFEVAL
+        .captures(&src)
+        .is_some_and(|captures| captures[1].is_empty())
+  }
+
   pub fn directive_endif_target(&self) -> Option<BumpString<'arena>> {
     if !self
       .current_token()
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..e5ef2ff 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -13,12 +13,14 @@ impl<'arena> Parser<'arena> {
 
     let attrs = captures.get(1).unwrap().as_str();
     let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
 
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
-      (true, "") => Ok(DirectiveAction::ReadNextLine),
+      (true, "") => {
+        self.ctx.ifdef_stack.push(self.string(attrs));
+        Ok(DirectiveAction::ReadNextLine)
+      }
       (true, embedded) => {
         let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump);
         src.push_str(embedded);
@@ -58,33 +60,23 @@ impl<'arena> Parser<'arena> {
     start_line: &Line<'arena>,
   ) -> Result<Option<Line<'arena>>> {
     let mut depth = 1;
-    loop {
-      let token = self.lexer.next_token();
-      if token.matches(TokenKind::Directive, "endif::") {
-        let mut line = Line::empty(self.bump);
-        line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
-        }
-        if line.is_directive_endif() {
-          depth -= 1;
-          if depth == 0 {
-            if self.lexer.at_newline() {
-              self.lexer.skip_newline();
-            }
-            break self.read_line();
-          }
+    while !self.lexer.is_eof() {
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        line.push(self.lexer.next_token());
+      }
+      self.lexer.skip_newline();
+      if line.is_directive_endif() {
+        depth -= 1;
+        if depth == 0 {
+          return self.read_line();
         }
-      } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
-      {
-        // TODO: we should probably check if the directive is valid
+      } else if line.opens_conditional_directive() {
         depth += 1;
-      } else if self.lexer.is_eof() {
-        // TODO: should probably not be a skippable/non-strict error
-        self.err_line("This ifdef directive was never closed", start_line)?;
-        break Ok(None);
       }
     }
+    // TODO: should probably not be a skippable/non-strict error
+    self.err_line("This ifdef directive was never closed", start_line)?;
+    Ok(None)
   }
 }
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
-- 
2.43.0


From c83fcb6f63e7a55189f76ad7d2d7e9e407c14512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 003/112] fix: accept a one-character include target

---
 parser/src/tasks/directives/includes/process_includes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..ab2108c 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -273,7 +273,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
 }
 
 lazy_static! {
-  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   // ascidoctor impl: /^(\\)?include::([^\s\[](?:[^\[]*[^\s\[])?)\[(.+)?\]$/
 }
 
-- 
2.43.0


From 860299528cc19a41c552680a09198d674e786536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 004/112] fix: resume the right source when nested includes end
 together

---
 parser/src/lexer/root_lexer.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..923a487 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -197,11 +197,13 @@ impl<'arena> RootLexer<'arena> {
       return Some(c);
     }
     // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
-    }
-    // case: nothing left in any source, document EOF
-    None
+    // NB: which might itself be exhausted, if the include was its last line
+    // if there's nothing left in any source, we're at the document EOF
+    self
+      .source_stack
+      .iter()
+      .rev()
+      .find_map(|prev_idx| self.sources[*prev_idx as usize].peek())
   }
 
   pub fn skip_byte(&mut self) {
@@ -249,12 +251,12 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
-    let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
-    }
+    let cur_idx = self.next_idx.unwrap_or(self.idx);
+    std::iter::once(&cur_idx)
+      .chain(self.source_stack.iter().rev())
+      .map(|idx| &self.sources[*idx as usize])
+      .find(|source| !source.is_eof())
+      .and_then(|source| source.at_delimiter_line())
   }
 
   pub fn is_eof(&self) -> bool {
-- 
2.43.0


From df07ce0ff6a74e0afc4bc5ea566a02931747c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 005/112] fix: close a delimited block whose closing line
 follows a directive

---
 parser/src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..4fcc814 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -204,10 +204,19 @@ impl<'arena> Parser<'arena> {
 
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+      let Some(line) = self.read_line()? else {
+        break;
+      };
+      if line.is_delimiter(delimiter) {
+        // the line following a directive closes the block
+        closing_line = Some(line);
+        break;
+      }
+      additional_lines.push(line);
     }
     lines.extend(additional_lines);
 
+    let mut closing_line = None;
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
@@ -217,6 +226,9 @@ impl<'arena> Parser<'arena> {
   fn at_delimiter(&self, delimiter: Delimiter) -> bool {
     match delimiter.kind {
       DelimiterKind::BlockQuote => self.lexer.at_delimiter_line() == Some((4, b'_')),
+    if let Some(line) = closing_line {
+      lines.push(line);
+    }
       DelimiterKind::Example => {
         self.lexer.at_delimiter_line() == Some((delimiter.len as u32, b'='))
       }
-- 
2.43.0


From bc5b73301de363f7691275a1dd09843dd6155c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 006/112] fix: end an attribute entry embedded in a conditional
 at its bracket

---
 parser/src/lexer/root_lexer.rs       | 20 +++++++++++++++++++-
 parser/src/tasks/directives/ifdef.rs |  3 +--
 parser/src/tasks/parse_doc_attrs.rs  | 24 ++++++++++++++----------
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 923a487..e0c6040 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -119,6 +119,17 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn source_file(&self) -> &SourceFile {
     &self.sources[self.idx as usize].file
+  /// the position in the current source where text embedded in a directive ends
+  pub fn embedded_end(&self) -> Option<u32> {
+    match &self.tmp_buf {
+      Some((buf, BufLoc::Offset(offset))) => {
+        let newline = u32::from(buf.src.last() == Some(&b'\n'));
+        Some(offset + buf.src.len() as u32 - newline)
+      }
+      _ => None,
+    }
+  }
+
   }
 
   pub fn source_file_at(&self, idx: u16) -> &SourceFile {
@@ -176,6 +187,10 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn skip_newline(&mut self) {
     if self.peek_is(b'\r') {
+    if let Some((buf, BufLoc::Offset(offset))) = &mut self.tmp_buf {
+      buf.pos = pos - *offset;
+      return;
+    }
       self.skip_byte();
     }
     if self.peek_is(b'\n') {
@@ -294,7 +309,10 @@ impl<'arena> RootLexer<'arena> {
     {
       match buf_loc {
         BufLoc::Repeat(loc) => token.loc = *loc,
-        BufLoc::Offset(offset) => token.loc = token.loc.offset(*offset),
+        BufLoc::Offset(offset) => {
+          token.loc = token.loc.offset(*offset);
+          token.loc.include_depth = self.idx;
+        }
         BufLoc::From(src_loc) => {
           token.loc = SourceLocation::new(
             src_loc.start + token.loc.start,
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index e5ef2ff..e07704a 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -27,8 +27,7 @@ impl<'arena> Parser<'arena> {
         src.push('\n');
         let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
         self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        Ok(DirectiveAction::ReadNextLine)
       }
     }
   }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..1ca163e 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -7,6 +7,10 @@ impl<'arena> Parser<'arena> {
     let start_loc = token.loc.start;
     let depth = token.loc.include_depth;
 
+    // an attr def within a single-line conditional ends before its closing bracket
+    let limit = self.lexer.embedded_end().unwrap_or(u32::MAX);
+    let byte_at = |pos: u32| if pos < limit { self.lexer.byte_at(pos, depth) } else { None };
+
     // we need at least 4 bytes to have a valid attr def: `:a:\n`
     if self.lexer.byte_at(start_loc + 3, depth).is_none() {
       return Ok(());
@@ -28,11 +32,11 @@ impl<'arena> Parser<'arena> {
     // test attr def start, and bail early
     let mut pos = start_loc + 1;
     let mut negated = Negation::None;
-    if self.lexer.byte_at(pos, depth) == Some(b'!') {
+    if byte_at(pos) == Some(b'!') {
       negated = Negation::Leading;
       pos += 1;
     };
-    let first_char = self.lexer.byte_at(pos, depth).unwrap();
+    let first_char = byte_at(pos).unwrap_or_default();
     if !first_char.is_ascii_alphanumeric() && first_char != b'_' {
       return Ok(());
     }
@@ -45,7 +49,7 @@ impl<'arena> Parser<'arena> {
     let mut has_lbrace = false;
     let mut def_start = u32::MAX;
     loop {
-      match (state, self.lexer.byte_at(pos, depth)) {
+      match (state, byte_at(pos)) {
         (State::InName, Some(b)) if is_attr_word_char(b) => {}
         (State::InName, Some(b'!')) => {
           negated = Negation::Trailing;
@@ -66,7 +70,7 @@ impl<'arena> Parser<'arena> {
         (State::TrailingBang, _) => {
           return Ok(());
         }
-        (State::AfterName, Some(b'\r')) if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+        (State::AfterName, Some(b'\r')) if byte_at(pos + 1) == Some(b'\n') => {
           break;
         }
         (State::AfterName, Some(b'\n') | None) => break,
@@ -103,16 +107,16 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        if self.lexer.byte_at(pos + 1, depth) == Some(b'\r') {
-          pos += 2;
-        } else {
-          pos += 1;
+        match byte_at(pos) {
+          Some(b'\r') => pos += 2,
+          Some(_) => pos += 1,
+          None => break,
         }
 
         let line_start = pos;
         loop {
-          match self.lexer.byte_at(pos, depth) {
-            Some(b'\r') if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+          match byte_at(pos) {
+            Some(b'\r') if byte_at(pos + 1) == Some(b'\n') => {
               break;
             }
             Some(b'\n') | None => break,
-- 
2.43.0


From 89a5413cb85d0f20b3d992f66302db6dee599f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 007/112] fix: count include depth by nesting and carry it into
 table cells

---
 parser/src/lexer/root_lexer.rs                | 56 ++++++++++---------
 parser/src/lexer/source_lexer.rs              | 10 +++-
 parser/src/parse_context.rs                   |  2 +-
 parser/src/parser.rs                          | 20 ++++---
 .../directives/includes/process_includes.rs   |  7 ++-
 parser/src/tasks/table/parse_table.rs         | 10 +++-
 6 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index e0c6040..1b19278 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -29,7 +29,7 @@ impl<'arena> RootLexer<'arena> {
       next_idx: None,
       source_stack: Vec::new(),
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
-      sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
+      sources: bvec![in bump; SourceLexer::new(src, file, 0, 0, None, Rc::new(bvec![in bump]), bump)],
       tmp_buf: None,
     }
   }
@@ -93,10 +93,16 @@ impl<'arena> RootLexer<'arena> {
     if src_bytes.last() != Some(&b'\n') {
       src_bytes.push(b'\n');
     }
+    let parent = &self.sources[self.idx as usize];
+    let nesting = parent.nesting + 1;
+    let max_include_depth = max_include_depth
+      .map(|depth| (depth, nesting))
+      .or(parent.max_include_depth);
     self.sources.push(SourceLexer::new(
       src_bytes,
       src_file,
       leveloffset,
+      nesting,
       max_include_depth,
       Rc::clone(&self.plugin_macros),
       self.bump,
@@ -113,12 +119,6 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf.is_none()
   }
 
-  pub fn adjust_offset(&mut self, offset_adjustment: u32) {
-    self.sources[self.idx as usize].offset = offset_adjustment;
-  }
-
-  pub fn source_file(&self) -> &SourceFile {
-    &self.sources[self.idx as usize].file
   /// the position in the current source where text embedded in a directive ends
   pub fn embedded_end(&self) -> Option<u32> {
     match &self.tmp_buf {
@@ -130,6 +130,12 @@ impl<'arena> RootLexer<'arena> {
     }
   }
 
+  pub fn adjust_offset(&mut self, offset_adjustment: u32) {
+    self.sources[self.idx as usize].offset = offset_adjustment;
+  }
+
+  pub fn source_file(&self) -> &SourceFile {
+    &self.sources[self.idx as usize].file
   }
 
   pub fn source_file_at(&self, idx: u16) -> &SourceFile {
@@ -147,8 +153,15 @@ impl<'arena> RootLexer<'arena> {
     SourceString::new(src, loc)
   }
 
-  pub const fn source_is_primary(&self) -> bool {
-    self.idx == 0
+  /// set up as the lexer of a document nested (in a table cell) at `loc` of `parent`
+  pub fn set_nested_in(&mut self, parent: &RootLexer<'arena>, loc: SourceLocation) {
+    let parent = &parent.sources[loc.include_depth as usize];
+    self.sources[0].nesting = parent.nesting;
+    self.sources[0].max_include_depth = parent.max_include_depth;
+  }
+
+  pub fn source_is_primary(&self) -> bool {
+    self.include_nesting() == 0
   }
 
   pub const fn source_idx(&self) -> u16 {
@@ -174,6 +187,10 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn set_pos(&mut self, pos: u32) {
+    if let Some((buf, BufLoc::Offset(offset))) = &mut self.tmp_buf {
+      buf.pos = pos - *offset;
+      return;
+    }
     self.sources[self.idx as usize].pos = pos - self.sources[self.idx as usize].offset;
   }
 
@@ -187,10 +204,6 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn skip_newline(&mut self) {
     if self.peek_is(b'\r') {
-    if let Some((buf, BufLoc::Offset(offset))) = &mut self.tmp_buf {
-      buf.pos = pos - *offset;
-      return;
-    }
       self.skip_byte();
     }
     if self.peek_is(b'\n') {
@@ -295,9 +308,8 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
-    let before_offset = self.line_number(offset_loc) - 1;
+  pub fn reline_diagnostics(&self, loc: SourceLocation, diagnostics: &mut [Diagnostic]) {
+    let before_offset = self.line_number(loc) - 1;
     diagnostics
       .iter_mut()
       .for_each(|diag| diag.line_num += before_offset);
@@ -346,18 +358,12 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].truncate();
   }
 
-  pub const fn include_depth(&self) -> u16 {
-    self.idx
+  pub fn include_nesting(&self) -> u16 {
+    self.sources[self.idx as usize].nesting
   }
 
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
-    self
-      .sources
-      .iter()
-      .enumerate()
-      .fold(None, |current, (i, src)| {
-        src.max_include_depth.map(|d| (d, i as u16)).or(current)
-      })
+    self.sources[self.idx as usize].max_include_depth
   }
 
   pub fn register_plugin_macros(&mut self, names: &[impl AsRef<str>]) {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..b42ae68 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -12,7 +12,10 @@ pub struct SourceLexer<'arena> {
   pub file: SourceFile,
   pub leveloffset: i8,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
-  pub max_include_depth: Option<u16>,
+  /// number of includes (and enclosing sources of an AsciiDoc table cell) we're inside of
+  pub nesting: u16,
+  /// relative include depth limit in effect, and the nesting level it is relative to
+  pub max_include_depth: Option<(u16, u16)>,
 }
 
 impl<'arena> SourceLexer<'arena> {
@@ -20,7 +23,8 @@ impl<'arena> SourceLexer<'arena> {
     src: BumpVec<'arena, u8>,
     file: SourceFile,
     leveloffset: i8,
-    max_include_depth: Option<u16>,
+    nesting: u16,
+    max_include_depth: Option<(u16, u16)>,
     plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
     bump: &'arena Bump,
   ) -> Self {
@@ -31,6 +35,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset,
       file,
+      nesting,
       max_include_depth,
       plugin_macros,
     }
@@ -48,6 +53,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset: 0,
       file,
+      nesting: 0,
       max_include_depth: None,
       plugin_macros: Rc::new(bvec![in bump]),
     }
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..4cab8c6 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -119,7 +119,7 @@ impl<'arena> ParseContext<'arena> {
       table_cell_ctx: TableCellContext::AsciiDocCell,
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
-      max_include_depth: 64,
+      max_include_depth: self.max_include_depth,
       comment_delim_in_lines: false,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 4fcc814..ef117a9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -76,11 +76,17 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(
+    &mut self,
+    src: BumpVec<'arena, u8>,
+    loc: SourceLocation,
+  ) -> Parser<'arena> {
+    let file = self.lexer.source_file_at(loc.include_depth).clone();
+    let mut cell_parser = Parser::new(src, file, self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
-    cell_parser.lexer.adjust_offset(offset);
+    cell_parser.lexer.adjust_offset(loc.start);
+    cell_parser.lexer.set_nested_in(&self.lexer, loc);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
@@ -202,6 +208,7 @@ impl<'arena> Parser<'arena> {
       return Ok(Some(lines));
     }
 
+    let mut closing_line = None;
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       let Some(line) = self.read_line()? else {
@@ -216,19 +223,18 @@ impl<'arena> Parser<'arena> {
     }
     lines.extend(additional_lines);
 
-    let mut closing_line = None;
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    if let Some(line) = closing_line {
+      lines.push(line);
+    }
     Ok(Some(lines))
   }
 
   fn at_delimiter(&self, delimiter: Delimiter) -> bool {
     match delimiter.kind {
       DelimiterKind::BlockQuote => self.lexer.at_delimiter_line() == Some((4, b'_')),
-    if let Some(line) = closing_line {
-      lines.push(line);
-    }
       DelimiterKind::Example => {
         self.lexer.at_delimiter_line() == Some((delimiter.len as u32, b'='))
       }
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index ab2108c..10272f3 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -228,8 +228,11 @@ impl<'arena> Parser<'arena> {
       .lexer
       .max_include_depth()
       .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
+    let abs_depth = u16::min(
+      rel_depth.saturating_add(stack_depth),
+      self.ctx.max_include_depth,
+    );
+    if self.lexer.include_nesting() >= abs_depth {
       Some(rel_depth)
     } else {
       None
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..c5d28c0 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -215,7 +215,11 @@ impl<'arena> Parser<'arena> {
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      let cell_loc = cell_tokens.first_loc().map_or_else(
+        || SourceLocation::new(loc.start, loc.start, self.lexer.source_idx()),
+        |first| SourceLocation::new(loc.start, loc.start, first.include_depth),
+      );
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), cell_loc);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -227,7 +231,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self.lexer.reline_diagnostics(cell_loc, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -241,7 +245,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics(cell_loc, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From ed484bb49f57065a20468ddaa9404ca7bfffe563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 008/112] fix: replace attribute references in directives
 inside verbatim blocks

---
 parser/src/tasks/attr_refs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..2cf36a8 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,7 +51,9 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
-    if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    // attr refs in a directive are always replaced, even within a verbatim block
+    let replace_attr_refs = self.ctx.subs.attr_refs() || line.starts(TokenKind::Directive);
+    if token.kind(TokenKind::AttrRef) && replace_attr_refs {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From 4c53e9a7de52f7f86f244d6027338cea9049ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 009/112] fix: keep the text of an include directive that is
 refused

---
 parser/src/tasks/directives/includes/process_includes.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 10272f3..e279e54 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -6,6 +6,7 @@ use crate::variants::token::*;
 
 #[derive(Debug)]
 struct IncludeDirective<'a> {
+  line: Line<'a>,
   line_src: BumpString<'a>,
   first_token: Token<'a>,
   target: BumpString<'a>,
@@ -48,7 +49,7 @@ impl<'arena> Parser<'arena> {
         format!("Maximum include depth of {max_depth} exceeded"),
         directive.first_token.loc,
       )?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::SubstituteLine(directive.line));
     }
 
     let Some(resolver) = self.include_resolver.as_mut() else {
@@ -56,7 +57,7 @@ impl<'arena> Parser<'arena> {
         "No resolver supplied for include directive",
         &directive.first_token,
       )?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::SubstituteLine(directive.line));
     };
 
     let target = match super::target::prepare(
@@ -131,7 +132,7 @@ impl<'arena> Parser<'arena> {
       }
       Err(error) => {
         self.target_err(format!("Include error: {error}"), &directive)?;
-        Ok(DirectiveAction::Passthrough)
+        Ok(DirectiveAction::SubstituteLine(directive.line))
       }
     }
   }
@@ -151,11 +152,13 @@ impl<'arena> Parser<'arena> {
       let target = captures.get(1).unwrap().as_str();
       let has_spaces = target.contains(' ');
       let target = self.string(target);
+      let original = line.clone();
       let first_token = line.consume_current().unwrap();
       let target_is_uri = line.current_token().kind(TokenKind::UriScheme);
       let num_target_tokens = line.first_nonescaped(TokenKind::OpenBracket).unwrap().1;
       line.discard(num_target_tokens + 1); // including open bracket
       Ok(Some(IncludeDirective {
+        line: original,
         line_src: src,
         first_token,
         target,
-- 
2.43.0


From 5508644ce223e6ae4138608b5945843fe46f5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 010/112] fix: keep a refused directive in a table cell from
 being processed again

---
 parser/src/tasks/table/parse_table.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index c5d28c0..7a08af2 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -375,6 +375,7 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = line.last_loc() {
         end = loc.end;
       }
+      self.escape_directive(&line, &mut tokens);
       line.drain_into(&mut tokens);
       if !lines.is_empty() {
         tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
@@ -396,6 +397,7 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = next_line.last_loc() {
         end = loc.end;
       }
+      self.escape_directive(&next_line, &mut tokens);
       next_line.drain_into(&mut tokens);
     }
     self.err_line("Table never closed, started here", start_delim)?;
@@ -403,6 +405,21 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+impl<'arena> Parser<'arena> {
+  /// a directive still present in a line was refused: it must stay text when
+  /// the contents of an asciidoc cell are parsed again
+  fn escape_directive(&self, line: &Line<'arena>, tokens: &mut Deq<'arena, Token<'arena>>) {
+    if line.starts(TokenKind::Directive) {
+      let loc = line.first_loc().unwrap().clamp_start();
+      tokens.push(Token::new(
+        TokenKind::Backslash,
+        loc,
+        BumpString::from_str_in("\\", self.bump),
+      ));
+    }
+  }
+}
+
 fn newline_token(start: u32, depth: u16, bump: &Bump) -> Token<'_> {
   Token {
     kind: TokenKind::Newline,
-- 
2.43.0


From 25826b79908046cff1f5e9e130745b3976a4cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 011/112] fix: do not read an empty included file as a blank
 line

---
 parser/src/lexer/root_lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 1b19278..d1e69d7 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -95,6 +95,10 @@ impl<'arena> RootLexer<'arena> {
     }
     let parent = &self.sources[self.idx as usize];
     let nesting = parent.nesting + 1;
+    // an empty file has no lines at all
+    if src_bytes.is_empty() {
+      return;
+    }
     let max_include_depth = max_include_depth
       .map(|depth| (depth, nesting))
       .or(parent.max_include_depth);
-- 
2.43.0


From d546f6a260aea18db459a93a62d72bc3833000d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 012/112] fix: read the lines after an attribute entry again
 from the right source and state

---
 parser/src/lexer/mod.rs             |  2 +-
 parser/src/lexer/root_lexer.rs      | 35 +++++++++++++++++++---
 parser/src/parse_context.rs         | 10 +++++++
 parser/src/tasks/parse_block.rs     | 11 +++----
 parser/src/tasks/parse_doc_attrs.rs | 45 ++++++++++++++++++++++++-----
 5 files changed, 85 insertions(+), 18 deletions(-)

diff --git a/parser/src/lexer/mod.rs b/parser/src/lexer/mod.rs
index 3db281f..babe03a 100644
--- a/parser/src/lexer/mod.rs
+++ b/parser/src/lexer/mod.rs
@@ -1,5 +1,5 @@
 mod root_lexer;
 mod source_lexer;
 
-pub use root_lexer::BufLoc;
+pub use root_lexer::{BufLoc, LexerMark};
 pub use root_lexer::RootLexer as Lexer;
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d1e69d7..4c7f39a 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -14,6 +14,14 @@ pub struct RootLexer<'arena> {
   tmp_buf: Option<(SourceLexer<'arena>, BufLoc)>,
 }
 
+/// a point in the sources which can be returned to
+#[derive(Debug, Clone)]
+pub struct LexerMark {
+  idx: u16,
+  source_stack: Vec<u16>,
+  positions: Vec<u32>,
+}
+
 #[derive(Debug)]
 pub enum BufLoc {
   Repeat(SourceLocation),
@@ -87,6 +95,10 @@ impl<'arena> RootLexer<'arena> {
     max_include_depth: Option<u16>,
     mut src_bytes: BumpVec<'arena, u8>,
   ) {
+    // an empty file has no lines at all
+    if src_bytes.is_empty() {
+      return;
+    }
     // match asciidoctor - its include processor returns an array of lines
     // so even if the source has no trailing newline, it's inserted as a full line
     // NB: the include resolver has taken care of reserving space for the newline
@@ -95,10 +107,6 @@ impl<'arena> RootLexer<'arena> {
     }
     let parent = &self.sources[self.idx as usize];
     let nesting = parent.nesting + 1;
-    // an empty file has no lines at all
-    if src_bytes.is_empty() {
-      return;
-    }
     let max_include_depth = max_include_depth
       .map(|depth| (depth, nesting))
       .or(parent.max_include_depth);
@@ -198,6 +206,25 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].pos = pos - self.sources[self.idx as usize].offset;
   }
 
+  pub fn mark(&self) -> LexerMark {
+    LexerMark {
+      idx: self.idx,
+      source_stack: self.source_stack.clone(),
+      positions: self.sources.iter().map(|source| source.pos).collect(),
+    }
+  }
+
+  pub fn rewind(&mut self, mark: &LexerMark) {
+    self.idx = mark.idx;
+    self.next_idx = None;
+    self.source_stack.clone_from(&mark.source_stack);
+    self.sources.truncate(mark.positions.len());
+    for (source, pos) in self.sources.iter_mut().zip(&mark.positions) {
+      source.pos = *pos;
+    }
+    self.tmp_buf = None;
+  }
+
   pub fn leveloffset(&self, idx: u16) -> i8 {
     self.sources[idx as usize].leveloffset
   }
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 4cab8c6..951f9b9 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -39,6 +39,16 @@ pub struct AttrDef {
   pub value: AttrValue,
   pub has_lbrace: bool,
   pub in_header: bool,
+  pub resume: ResumePoint,
+}
+
+/// the state just after an attr def, to read the lines following it again
+#[derive(Debug, Clone)]
+pub struct ResumePoint {
+  pub lexer: LexerMark,
+  pub ifdef_stack: Vec<String>,
+  pub leveloffset: i8,
+  pub num_errors: usize,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone)]
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..5e3f7ae 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -103,6 +103,12 @@ impl<'arena> Parser<'arena> {
           let replaced = self.replace_attr_vals(str_val);
           def.value = AttrValue::String(replaced.into_owned());
         }
+        lines.consume_current(); // attr def
+        if !lines.is_empty() {
+          // re-parse adjoining chunk, to resolve attr def
+          self.ctx.attr_defs.truncate(pos);
+          self.resume_after(&def);
+        }
         self.ctx.attr_defs.push(def.clone());
         if let Err(err) = self
           .document
@@ -111,11 +117,6 @@ impl<'arena> Parser<'arena> {
         {
           self.err_at(err, def.loc)?;
         }
-        lines.consume_current(); // attr def
-        if !lines.is_empty() {
-          // re-parse adjoining chunk, to resolve attr def
-          self.lexer.set_pos(def.loc.end);
-        }
         return Ok(Some(Block {
           meta,
           loc: def.loc.into(),
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 1ca163e..d3cedb2 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -161,14 +161,9 @@ impl<'arena> Parser<'arena> {
     }
 
     let attr_def_loc = SourceLocation::new(start_loc, pos, depth);
-    self.ctx.attr_defs.push(AttrDef {
-      name: name.clone(),
-      loc: attr_def_loc,
-      val_loc: SourceLocation::new(def_start, pos, depth),
-      value: value.clone(),
-      has_lbrace,
-      in_header: self.ctx.in_header,
-    });
+    let in_header = self.ctx.in_header;
+    let attr_name = name.clone();
+    let attr_value = value.clone();
 
     if name == "leveloffset" {
       Parser::adjust_leveloffset(&mut self.ctx.leveloffset, &value);
@@ -202,9 +197,43 @@ impl<'arena> Parser<'arena> {
     token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
     self.lexer.set_pos(pos);
 
+    self.ctx.attr_defs.push(AttrDef {
+      name: attr_name,
+      loc: attr_def_loc,
+      val_loc: SourceLocation::new(def_start, pos, depth),
+      value: attr_value,
+      has_lbrace,
+      in_header,
+      resume: ResumePoint {
+        lexer: self.lexer.mark(),
+        ifdef_stack: self.ctx.ifdef_stack.iter().map(ToString::to_string).collect(),
+        leveloffset: self.ctx.leveloffset,
+        num_errors: self.errors.borrow().len(),
+      },
+    });
+
     Ok(())
   }
 
+  /// return to the point just after an attr def, as if nothing after it had been read
+  pub(crate) fn resume_after(&mut self, def: &AttrDef) {
+    let resume = &def.resume;
+    let file = self.lexer.source_file_at(def.loc.include_depth);
+    let line = self.lexer.line_number(def.loc);
+    let mut idx = 0;
+    self.errors.borrow_mut().retain(|err| {
+      idx += 1;
+      idx <= resume.num_errors || (err.source_file == *file && err.line_num <= line)
+    });
+    self.lexer.rewind(&resume.lexer);
+    self.ctx.leveloffset = resume.leveloffset;
+    self.ctx.ifdef_stack.clear();
+    for name in &resume.ifdef_stack {
+      let name = self.string(name);
+      self.ctx.ifdef_stack.push(name);
+    }
+  }
+
   // we're selectively opting in to some high-value pass-macro wrapping
   // shenanigans, because they are documented and likely appear frequently
   // in real world use cases, but these are major implementation leaks and
-- 
2.43.0


From 8fcf9ca9a3b946fb0ed22d5b4f13567f248c778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 013/112] fix: do not add rows to a table without columns
 forever

---
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..2e3cb76 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if ctx.num_cols > 0 && cells.len() == remaining_room {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
-- 
2.43.0


From 5ec441ff55f586dc5182ada7205fd2af57068a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 014/112] fix: count the cells carried over from a repeated
 cell in the next row

---
 parser/src/tasks/table/parse_psv_table.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 2e3cb76..11def37 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -45,6 +45,7 @@ impl<'arena> Parser<'arena> {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
+    num_effective_cells += cells.len();
 
     while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
       if dupe > 1 {
-- 
2.43.0


From 3106e2a63528db0923bb20376adf13f0a1911dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 015/112] fix: process directives after a closed comment block
 and within verbatim blocks holding ////

---
 parser/src/delimiter.rs     | 12 ++++++++++++
 parser/src/line.rs          |  6 +++++-
 parser/src/parse_context.rs |  4 ----
 parser/src/parser.rs        | 13 ++++++++++---
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index 01f315d..8a7a15a 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -18,6 +18,18 @@ pub struct Delimiter {
   pub len: u8,
 }
 
+impl Delimiter {
+  pub const fn is_verbatim(&self) -> bool {
+    matches!(
+      self.kind,
+      DelimiterKind::Listing
+        | DelimiterKind::Literal
+        | DelimiterKind::Passthrough
+        | DelimiterKind::Comment
+    )
+  }
+}
+
 impl From<DelimiterKind> for BlockContext {
   fn from(delimiter: DelimiterKind) -> Self {
     match delimiter {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 83871eb..a318955 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -291,8 +291,12 @@ impl<'arena> Line<'arena> {
       && self.is_fully_unconsumed()
   }
 
+  pub fn as_delimiter(&self) -> Option<Delimiter> {
+    if self.num_tokens() == 1 { self.current_token().unwrap().to_delimiter() } else { None }
+  }
+
   pub fn is_delimiter(&self, delimiter: Delimiter) -> bool {
-    self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter() == Some(delimiter)
+    self.as_delimiter() == Some(delimiter)
   }
 
   pub fn is_delimiter_kind(&self, delimiter_kind: DelimiterKind) -> bool {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 951f9b9..f9c2e73 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -233,10 +233,6 @@ impl<'arena> ParseContext<'arena> {
 
   pub fn within_block_comment(&self) -> bool {
     self.comment_delim_in_lines
-      || self
-        .delimiter
-        .as_ref()
-        .is_some_and(|d| d.kind == DelimiterKind::Comment)
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ef117a9..bbbd14a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -160,7 +160,8 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
-    self.ctx.comment_delim_in_lines = false;
+    let mut verbatim = self.ctx.delimiter.filter(Delimiter::is_verbatim);
+    self.ctx.comment_delim_in_lines = verbatim.is_some_and(|d| d.kind == DelimiterKind::Comment);
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
@@ -182,8 +183,14 @@ impl<'arena> Parser<'arena> {
           break;
         }
       }
-      if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
+      if let Some(delimiter) = line.as_delimiter().filter(Delimiter::is_verbatim) {
+        match verbatim {
+          None => verbatim = Some(delimiter),
+          Some(open) if open == delimiter => verbatim = None,
+          Some(_) => {}
+        }
+        self.ctx.comment_delim_in_lines =
+          verbatim.is_some_and(|d| d.kind == DelimiterKind::Comment);
       }
       lines.push(line);
       if self.lexer.at_newline() {
-- 
2.43.0


From f6881697fefff2f434f0a64790a6d0fa6d762d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 016/112] fix: read a header comment block that spans blank
 lines to its end

---
 parser/src/tasks/parse_doc_header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..e0cab8f 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -72,13 +72,18 @@ impl<'arena> Parser<'arena> {
       return Ok(end_delim.first_loc());
     }
 
+    let prev_delimiter = self.ctx.delimiter;
+    self.ctx.delimiter = block_start.as_delimiter();
     loop {
       let Some(mut next_lines) = self.read_lines()? else {
+        self.ctx.delimiter = prev_delimiter;
         self.err_line("Unclosed comment block, started here", &block_start)?;
         return Ok(None);
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
+        self.ctx.delimiter = prev_delimiter;
         let end_delim = next_lines.consume_current().unwrap();
+        *lines = next_lines;
         return Ok(end_delim.first_loc());
       }
     }
-- 
2.43.0


From 4c4d530f6120efb06247c80931cc85de6748dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 017/112] fix: keep the header attribute entries that follow a
 comment block

---
 parser/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index bbbd14a..6e68765 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -122,7 +122,7 @@ impl<'arena> Parser<'arena> {
     let mut line = Line::empty(self.bump);
     while !self.lexer.at_newline() && !self.lexer.is_eof() {
       let mut token = self.lexer.next_token();
-      if line.is_empty() {
+      if line.is_empty() && !self.ctx.within_block_comment() {
         // if we encounter a line like `|===` in the very first paragraph,
         // we know we're not in the header anymore, so any attrs refs can be set properly
         if self.ctx.in_header
@@ -130,6 +130,7 @@ impl<'arena> Parser<'arena> {
             token.kind,
             Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
           )
+          && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
         {
           self.ctx.in_header = false;
         } else if token.kind == Colon && self.ctx.subs.attr_refs() {
-- 
2.43.0


From 70f55820efe206bf2397006743150c9d5cc4f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 018/112] fix: keep the lines that follow the document header
 directly

---
 parser/src/tasks/parse_doc_header.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index e0cab8f..dda42f9 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -20,6 +20,7 @@ impl<'arena> Parser<'arena> {
     self.parse_doc_title_author_revision(&mut block, &mut header)?;
     self.skip_header_doc_attrs(&mut block, &mut header)?;
     self.finalize_doc_header(header);
+    self.restore_lines(block);
     Ok(())
   }
 
@@ -196,11 +197,18 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
     header: &mut DocHeader,
   ) -> Result<()> {
-    while lines.current_token().kind(AttrDef) {
-      let line = lines.consume_current().unwrap();
-      header.loc.end = line.first_loc().unwrap().end;
+    loop {
+      if lines.current_token().kind(AttrDef) {
+        let line = lines.consume_current().unwrap();
+        header.loc.end = line.first_loc().unwrap().end;
+      } else if lines.starts_with_comment_line() {
+        lines.discard_leading_comment_lines();
+      } else if lines.current_satisfies(Line::is_comment_block_delimiter) {
+        self.discard_comment_block(lines)?;
+      } else {
+        return Ok(());
+      }
     }
-    Ok(())
   }
 }
 
-- 
2.43.0


From 97b02ee1939207c79a566a7b79ffaf0431b321af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 019/112] fix: recognise an endif directive without a target
 that ends the document

---
 parser/src/lexer/source_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index b42ae68..e27c5b5 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -339,7 +339,7 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          && (self.remaining_len() > 4 || lexeme == b"endif" && self.remaining_len() == 4) =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From ff27de2962e6aaba0cf992d0fc430dd9aef86471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 020/112] fix: compare integers with floats, and values of
 different types, in ifeval

---
 parser/src/tasks/directives/ifeval.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..403aa73 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -101,7 +101,15 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
     (Value::Nil, Op::NotEq, Value::Nil) => false,
     (Value::Nil, Op::Eq, _) => false,
     (Value::Nil, Op::NotEq, _) => true,
+    // mixed numbers
+    (Value::Int(lhs), op, Value::Float(rhs)) => {
+      eval(Value::Float(lhs as f32), op, Value::Float(rhs))
+    }
+    (Value::Float(lhs), op, Value::Int(rhs)) => {
+      eval(Value::Float(lhs), op, Value::Float(rhs as f32))
+    }
     // mixed types and unsupported ops
+    (_, Op::NotEq, _) => true,
     _ => false,
   }
 }
-- 
2.43.0


From 85243529692d4ce89885b4340a797b9f38aec489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 021/112] fix: resolve an absolute include target from a
 document read from stdin

---
 parser/src/tasks/directives/includes/target.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..a9b23d4 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -31,7 +31,8 @@ pub fn prepare(
       };
       Ok(abspath.into())
     }
-    Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
+    // (a relative target in the primary document is relative to the base dir)
+    Src::Stdin { .. } => Ok(target.into()),
     Src::Tmp => unreachable!(),
   }
 }
-- 
2.43.0


From e1064f5aa13e41291e38df7864bd85096197a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 022/112] fix: select tagged regions of included files by the
 innermost region that matters

---
 parser/src/tasks/directives/includes/tags.rs | 171 +++++++++++++------
 1 file changed, 117 insertions(+), 54 deletions(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..e63b8b0 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -19,25 +19,20 @@ pub enum Spec {
   AllUntaggedIncl(String),       // !*;foo
 }
 
-#[derive(Debug, PartialEq, Eq)]
-enum Strategy {
-  Any,
-  All,
-}
-
 impl Spec {
-  fn satisfied_by(&self, stack: &TagStack) -> bool {
+  // the selectors this spec stands for, in order, as `(name, selected)`
+  fn selectors(&self) -> Vec<(&str, bool)> {
     match self {
-      Spec::AllNonTagDirectiveLines => true,
-      Spec::NoLines => false,
-      Spec::AllTaggedRegions => !stack.is_empty(),
-      Spec::AllUntaggedRegions => stack.is_empty(),
-      Spec::Tag(tag) => stack.contains(tag),
-      Spec::AllLinesExcl(tag) => !stack.contains(tag),
-      Spec::TagExclAllNested(tag) => stack.last_is(tag),
-      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.contains(excl),
-      Spec::AllTaggedExcl(tag) => !stack.is_empty() && !stack.contains(tag),
-      Spec::AllUntaggedIncl(tag) => stack.is_empty() || stack.last_is(tag),
+      Spec::AllNonTagDirectiveLines => vec![("**", true)],
+      Spec::NoLines => vec![("**", false)],
+      Spec::AllTaggedRegions => vec![("*", true)],
+      Spec::AllUntaggedRegions => vec![("*", false)],
+      Spec::Tag(tag) => vec![(tag, true)],
+      Spec::AllLinesExcl(tag) => vec![(tag, false)],
+      Spec::TagExclAllNested(tag) => vec![(tag, true), ("*", false)],
+      Spec::TagExclNested(incl, excl) => vec![(incl, true), (excl, false)],
+      Spec::AllTaggedExcl(tag) => vec![("*", true), (tag, false)],
+      Spec::AllUntaggedIncl(tag) => vec![("*", false), (tag, true)],
     }
   }
 }
@@ -46,16 +41,6 @@ impl Spec {
 pub struct TagSpecs(Vec<Spec>);
 
 impl TagSpecs {
-  fn strategy(&self) -> Strategy {
-    if self.0.first() == Some(&Spec::AllNonTagDirectiveLines) {
-      Strategy::All
-    } else if self.0.iter().all(|s| matches!(s, Spec::AllLinesExcl(_))) {
-      Strategy::All
-    } else {
-      Strategy::Any
-    }
-  }
-
   fn expected_tags(&self) -> HashSet<String> {
     self
       .0
@@ -107,8 +92,22 @@ impl TagSpecs {
       (Some(Spec::AllUntaggedIncl(prev)), Spec::AllLinesExcl(tag)) if prev == tag => {
         self.0.push(Spec::AllUntaggedRegions);
       }
-      // this spec effectively nullifies all previous ones
-      (_, Spec::AllNonTagDirectiveLines) => self.0 = vec![Spec::AllNonTagDirectiveLines],
+      // selecting all lines leaves only the exclusions of previous specs
+      (prev, Spec::AllNonTagDirectiveLines) => {
+        self.0.extend(prev);
+        let exclusions = self
+          .0
+          .iter()
+          .flat_map(Spec::selectors)
+          .filter_map(|selector| match selector {
+            ("*", false) => Some(Spec::AllUntaggedRegions),
+            ("**", _) | (_, true) => None,
+            (tag, false) => Some(Spec::AllLinesExcl(tag.to_string())),
+          })
+          .collect();
+        self.0 = exclusions;
+        self.0.push(Spec::AllNonTagDirectiveLines);
+      }
       (prev, spec) => {
         prev.map(|prev| self.0.push(prev));
         self.0.push(spec);
@@ -116,8 +115,67 @@ impl TagSpecs {
     }
   }
 
-  fn specs(&self) -> impl Iterator<Item = &Spec> {
-    self.0.iter()
+  // https://github.com/asciidoctor/asciidoctor/blob/c519d346d9b5c714b9df25e934757dad840fd997/lib/asciidoctor/reader.rb#L1189
+  fn selection(&self) -> Selection<'_> {
+    let mut tags: Vec<(&str, bool)> = Vec::new();
+    for (name, selected) in self.0.iter().flat_map(Spec::selectors) {
+      match tags.iter_mut().find(|(tag, _)| *tag == name) {
+        Some(tag) => tag.1 = selected,
+        None => tags.push((name, selected)),
+      }
+    }
+    let first = tags.first().copied();
+    let mut take = |name: &str| {
+      let idx = tags.iter().position(|(tag, _)| *tag == name)?;
+      Some(tags.remove(idx).1)
+    };
+    let (all, wildcard) = (take("**"), take("*"));
+    match (all, wildcard) {
+      (Some(base), Some(wildcard)) => Selection { base, wildcard: Some(wildcard), tags },
+      (Some(base), None) => {
+        let excludes_first = tags.first().is_some_and(|(_, selected)| !selected);
+        let wildcard = (!base && excludes_first).then_some(true);
+        Selection { base, wildcard, tags }
+      }
+      (None, Some(wildcard)) => Selection {
+        base: first == Some(("*", false)),
+        wildcard: Some(wildcard),
+        tags,
+      },
+      (None, None) => Selection {
+        base: !tags.iter().any(|(_, selected)| *selected),
+        wildcard: None,
+        tags,
+      },
+    }
+  }
+}
+
+#[derive(Debug)]
+struct Selection<'a> {
+  /// whether lines outside of all regions are selected
+  base: bool,
+  /// whether regions that are not named are selected, `None` if they don't matter
+  wildcard: Option<bool>,
+  /// named tags
+  tags: Vec<(&'a str, bool)>,
+}
+
+impl Selection<'_> {
+  fn named(&self, tag: &str) -> Option<bool> {
+    self.tags.iter().find(|(t, _)| *t == tag).map(|t| t.1)
+  }
+
+  fn selects(&self, stack: &TagStack) -> bool {
+    stack.last().map_or(self.base, |region| region.selected)
+  }
+
+  /// whether lines directly within a region are selected, `None` if the region doesn't matter
+  fn selects_region(&self, tag: &str, stack: &TagStack) -> Option<bool> {
+    self.named(tag).or_else(|| {
+      let wildcard = self.wildcard?;
+      Some(wildcard && stack.last().is_none_or(|region| region.selected))
+    })
   }
 }
 
@@ -193,21 +251,23 @@ impl<'arena> Parser<'arena> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
     let lines = src.split(|&c| c == b'\n');
-    let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
+    let selected = selection.selection();
     let mut pushed_non_empty_line = false;
     for (idx, line) in lines.enumerate() {
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           expected_tags.remove(&tag);
-          tag_stack.push(tag, idx);
+          if let Some(selects) = selected.selects_region(&tag, &tag_stack) {
+            tag_stack.push(tag, idx, selects);
+          }
         }
         Some(TagDirective::End(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
-          } else if selection.expected_tags().contains(&tag) {
+          } else if selected.named(&tag) == Some(true) {
             let line = nth_line(src, idx).unwrap().to_string();
             let underline_start = line.find(&tag).unwrap_or(0) as u32;
             self.err(Diagnostic {
@@ -215,20 +275,17 @@ impl<'arena> Parser<'arena> {
               line,
               message: tag_stack.last().map_or_else(
                 || format!("Unexpected end tag `{tag}`"),
-                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.0, tag),
+                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.tag, tag),
               ),
               underline_start,
               underline_width: tag.len() as u32,
               source_file: SourceFile::Path(src_path.clone()),
             })?;
+            tag_stack.remove(&tag);
           }
         }
         None => {
-          if (strategy == Strategy::All
-            && selection.specs().all(|spec| spec.satisfied_by(&tag_stack)))
-            || (strategy == Strategy::Any
-              && selection.specs().any(|spec| spec.satisfied_by(&tag_stack)))
-          {
+          if selected.selects(&tag_stack) {
             if !pushed_non_empty_line
               && (!line.is_empty() || line.iter().any(|&b| !b.is_ascii_whitespace()))
             {
@@ -241,9 +298,10 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    if let Some((tag, line_idx)) = tag_stack.last()
-      && selection.expected_tags().contains(tag)
-    {
+    for TagRegion { tag, line_idx, .. } in &tag_stack.0 {
+      if selected.named(tag) != Some(true) {
+        continue;
+      }
       let line = nth_line(src, *line_idx).unwrap().to_string();
       let underline_start = line.find(tag).unwrap_or(0) as u32;
       self.err(Diagnostic {
@@ -287,36 +345,41 @@ fn nth_line(src: &[u8], n: usize) -> Option<&str> {
 }
 
 #[derive(Debug)]
-struct TagStack(Vec<(String, usize)>);
+struct TagRegion {
+  tag: String,
+  line_idx: usize,
+  selected: bool,
+}
+
+#[derive(Debug)]
+struct TagStack(Vec<TagRegion>);
 
 impl TagStack {
   fn new() -> Self {
     TagStack(Vec::with_capacity(3))
   }
 
-  fn push(&mut self, tag: String, line_idx: usize) {
-    self.0.push((tag, line_idx));
+  fn push(&mut self, tag: String, line_idx: usize, selected: bool) {
+    self.0.push(TagRegion { tag, line_idx, selected });
   }
 
   fn pop(&mut self) {
     self.0.pop();
   }
 
-  const fn is_empty(&self) -> bool {
-    self.0.is_empty()
+  fn remove(&mut self, tag: &str) {
+    if let Some(idx) = self.0.iter().rposition(|region| region.tag == tag) {
+      self.0.remove(idx);
+    }
   }
 
   fn last_is(&self, tag: &str) -> bool {
-    self.0.last().map(|(t, _)| t == tag).unwrap_or(false)
+    self.last().is_some_and(|region| region.tag == tag)
   }
 
-  fn last(&self) -> Option<&(String, usize)> {
+  fn last(&self) -> Option<&TagRegion> {
     self.0.last()
   }
-
-  fn contains(&self, tag: &str) -> bool {
-    self.0.iter().any(|(t, _)| t == tag)
-  }
 }
 
 #[derive(Debug, PartialEq, Eq)]
-- 
2.43.0


From de39070017ed366082e53d2238a01a6c90c95c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 023/112] fix: do not read tag selectors of an include
 directive as formatted text

---
 parser/src/tasks/parse_attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..cd7f142 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -292,7 +292,7 @@ impl<'arena> Parser<'arena> {
       AttrIr::Named(name, tokens) => {
         let restore = self.ctx.subs;
         // TODO: is this correct?
-        self.ctx.subs = if matches!(name.src.as_str(), "subs" | "cols") {
+        self.ctx.subs = if matches!(name.src.as_str(), "subs" | "cols" | "tag" | "tags") {
           Substitutions::none()
         } else {
           Substitutions::attr_value()
-- 
2.43.0


From bbd8be5ae68df7eb78afcd8c5af0a0f836d3f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 024/112] fix: keep the blank line after an excluded line of an
 include, and read dropped lines without recursion

---
 parser/src/parser.rs                 | 89 +++++++++++++---------------
 parser/src/tasks/directives/ifdef.rs |  6 +-
 2 files changed, 44 insertions(+), 51 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 6e68765..bba549c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -108,56 +108,46 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
-  }
-
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
     assert!(self.peeked_lines.is_none());
-    if self.lexer.is_eof() {
-      return Ok(None);
-    }
-
     use TokenKind::*;
-    let mut drop_line = false;
-    let mut line = Line::empty(self.bump);
-    while !self.lexer.at_newline() && !self.lexer.is_eof() {
-      let mut token = self.lexer.next_token();
-      if line.is_empty() && !self.ctx.within_block_comment() {
-        // if we encounter a line like `|===` in the very first paragraph,
-        // we know we're not in the header anymore, so any attrs refs can be set properly
-        if self.ctx.in_header
-          && !matches!(
-            token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
-          )
-          && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
-        {
-          self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
-          self.try_parse_attr_def(&mut token)?;
+    while !self.lexer.is_eof() {
+      let mut drop_line = false;
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        let mut token = self.lexer.next_token();
+        if line.is_empty() && !self.ctx.within_block_comment() {
+          // if we encounter a line like `|===` in the very first paragraph,
+          // we know we're not in the header anymore, so any attrs refs can be set properly
+          if self.ctx.in_header
+            && !matches!(
+              token.kind,
+              Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            )
+            && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
+          {
+            self.ctx.in_header = false;
+          } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+            self.try_parse_attr_def(&mut token)?;
+          }
         }
+        self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
       }
-      self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
-    }
-    self.lexer.skip_newline();
-    if drop_line {
-      return self._read_line(false);
-    }
-    if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
-      match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+      self.lexer.skip_newline();
+      if drop_line {
+        continue;
+      }
+      if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
+        match self.try_process_directive(&mut line)? {
+          DirectiveAction::Passthrough => return Ok(Some(line)),
+          DirectiveAction::SubstituteLine(line) => return Ok(Some(line)),
+          DirectiveAction::IgnoreNotIncluded | DirectiveAction::ReadNextLine => {}
+          DirectiveAction::SkipLinesUntilEndIf => self.skip_lines_until_endif(&line)?,
+        }
+      } else {
+        return Ok(Some(line));
       }
-    } else {
-      Ok(Some((line, ignored_last)))
     }
+    Ok(None)
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
@@ -171,16 +161,19 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
-          // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line
+        } else {
+          // this case happens only when the empty line follows a directive line, otherwise
+          // we would have stopped before it; within a verbatim block it is content
+          if verbatim.is_some() {
+            lines.push(line);
+          }
           break;
         }
       }
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index e07704a..2e56499 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -57,7 +57,7 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn skip_lines_until_endif(
     &mut self,
     start_line: &Line<'arena>,
-  ) -> Result<Option<Line<'arena>>> {
+  ) -> Result<()> {
     let mut depth = 1;
     while !self.lexer.is_eof() {
       let mut line = Line::empty(self.bump);
@@ -68,7 +68,7 @@ impl<'arena> Parser<'arena> {
       if line.is_directive_endif() {
         depth -= 1;
         if depth == 0 {
-          return self.read_line();
+          return Ok(());
         }
       } else if line.opens_conditional_directive() {
         depth += 1;
@@ -76,6 +76,6 @@ impl<'arena> Parser<'arena> {
     }
     // TODO: should probably not be a skippable/non-strict error
     self.err_line("This ifdef directive was never closed", start_line)?;
-    Ok(None)
+    Ok(())
   }
 }
-- 
2.43.0


From 2550a4c7d70e340efc1f3c5fb80cd13e8f908724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 025/112] fix: ignore blank and excluded lines when adjusting
 the indentation of an include

---
 .../tasks/directives/includes/process_includes.rs  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index e279e54..708b3ec 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -251,7 +251,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   let Some(min_indent) = trimmed
     .split(|&c| c == b'\n')
     .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
+      if is_blank_or_excluded(line) {
         return acc;
       }
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
@@ -266,18 +266,24 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   if indent != min_indent {
     let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
     buf.split(|&c| c == b'\n').for_each(|line| {
-      let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      if line_indent >= min_indent {
+      if is_blank_or_excluded(line) {
+        dest.extend(line);
+      } else {
+        let line_indent = line.iter().take_while(|&&c| c == b' ').count();
         dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
         dest.extend(line.iter().skip(line_indent));
-        dest.push(b'\n');
       }
+      dest.push(b'\n');
     });
     dest.pop();
     std::mem::swap(buf, &mut dest);
   }
 }
 
+fn is_blank_or_excluded(line: &[u8]) -> bool {
+  line.trim_ascii().is_empty() || line == b"asciidorkinclude::[false]"
+}
+
 lazy_static! {
   pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   // ascidoctor impl: /^(\\)?include::([^\s\[](?:[^\[]*[^\s\[])?)\[(.+)?\]$/
-- 
2.43.0


From d97fb0334bd4bb74011d4b04a0371ec82b3411a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 026/112] fix: do not end the selected lines of an include with
 an extra blank line

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 3 ++-
 parser/src/tasks/directives/includes/tags.rs               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..a66159c 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -57,7 +57,8 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    for (i, line) in bytes.split_inclusive(|&b| b == b'\n').enumerate() {
+      let line = line.strip_suffix(b"\n").unwrap_or(line);
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index e63b8b0..cc68de2 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -250,11 +250,12 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
-    let lines = src.split(|&c| c == b'\n');
+    let lines = src.split_inclusive(|&c| c == b'\n');
     let mut expected_tags = selection.expected_tags();
     let selected = selection.selection();
     let mut pushed_non_empty_line = false;
     for (idx, line) in lines.enumerate() {
+      let line = line.strip_suffix(b"\n").unwrap_or(line);
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
-- 
2.43.0


From f9bcb92b1cd4d532a4813e59c115db44cc747df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 027/112] fix: discard blank lines at the start of a verbatim
 block that follow an excluded line

---
 parser/src/contiguous_lines.rs | 6 ++++++
 parser/src/parser.rs           | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..1f2989d 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -88,6 +88,12 @@ impl<'arena> ContiguousLines<'arena> {
     self.lines.is_empty()
   }
 
+  pub fn discard_leading_empty(&mut self) {
+    while self.first().is_some_and(Line::is_empty) {
+      self.lines.pop_front();
+    }
+  }
+
   pub fn consume_current(&mut self) -> Option<Line<'arena>> {
     self.lines.pop_front()
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index bba549c..136c252 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -205,6 +205,7 @@ impl<'arena> Parser<'arena> {
     let Some(mut lines) = self.read_lines()? else {
       return Ok(None);
     };
+    lines.discard_leading_empty();
     if lines.any(|l| l.is_delimiter(delimiter)) {
       return Ok(Some(lines));
     }
@@ -227,6 +228,7 @@ impl<'arena> Parser<'arena> {
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    lines.discard_leading_empty();
     if let Some(line) = closing_line {
       lines.push(line);
     }
-- 
2.43.0


From 320711694302fe0cd180b3d8f8d284be798c92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 028/112] fix: adjust the indentation of the lines of a
 verbatim block only, whatever follows it

---
 parser/src/contiguous_lines.rs  | 38 ++++++++++++++++-----------------
 parser/src/tasks/parse_block.rs |  4 +---
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 1f2989d..c40a57e 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -293,28 +293,26 @@ impl<'arena> ContiguousLines<'arena> {
     true
   }
 
-  pub fn get_indentation(&self) -> usize {
-    let mut indent = usize::MAX;
-    for line in self.iter() {
-      let line_indent = line.get_indentation();
-      if line_indent < indent {
-        indent = line_indent;
-      }
-    }
-    if indent == usize::MAX { 0 } else { indent }
-  }
-
-  pub fn set_indentation(&mut self, indent: usize) {
-    let current = self.get_indentation();
-    if current == indent {
+  pub fn set_indentation_until(&mut self, indent: usize, delimiter: Delimiter) {
+    let num_lines = self
+      .iter()
+      .take_while(|line| !line.is_delimiter(delimiter))
+      .count();
+    let has_content = |line: &&Line| !line.is_emptyish();
+    let current = self
+      .iter()
+      .take(num_lines)
+      .filter(has_content)
+      .map(Line::get_indentation)
+      .min();
+    let Some(current) = current.filter(|current| *current != indent) else {
       return;
-    }
-    self.lines.iter_mut().for_each(|line| {
-      let line_indent = line.get_indentation();
-      if line_indent >= current {
-        line.set_indentation(line_indent - current + indent);
+    };
+    for line in self.lines.iter_mut().take(num_lines) {
+      if !line.is_emptyish() {
+        line.set_indentation(line.get_indentation() - current + indent);
       }
-    });
+    }
   }
 
   #[cfg(debug_assertions)]
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5e3f7ae..dea8618 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -357,9 +357,7 @@ impl<'arena> Parser<'arena> {
         .named("indent")
         .and_then(|s| s.parse::<usize>().ok())
       {
-        let delimiter = lines.pop();
-        lines.set_indentation(indent);
-        delimiter.map(|d| lines.push(d));
+        lines.set_indentation_until(indent, delimiter);
       }
 
       if (context == Context::Listing || context == Context::Literal)
-- 
2.43.0


From 2fe3d53d6ac6ab334b6d6f0a935a82565d60dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 029/112] fix: do not define attributes from entry-like lines
 within the text of the first block

---
 parser/src/parse_context.rs | 3 +++
 parser/src/parser.rs        | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index f9c2e73..442d4a1 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -24,6 +24,7 @@ pub struct ParseContext<'arena> {
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
   pub comment_delim_in_lines: bool,
   pub in_header: bool,
+  pub seen_doc_title: bool,
   pub in_markdown_blockquote: bool,
   pub attr_defs: BumpVec<'arena, AttrDef>,
   pub replacing_attr: bool,
@@ -106,6 +107,7 @@ impl<'arena> ParseContext<'arena> {
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
+      seen_doc_title: false,
       in_markdown_blockquote: false,
       replacing_attr: false,
       attr_pass_subs: None,
@@ -134,6 +136,7 @@ impl<'arena> ParseContext<'arena> {
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
+      seen_doc_title: false,
       in_markdown_blockquote: false,
       replacing_attr: false,
       attr_pass_subs: None,
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 136c252..3c7b587 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -126,6 +126,11 @@ impl<'arena> Parser<'arena> {
             && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
           {
             self.ctx.in_header = false;
+          } else if self.ctx.in_header && token.kind == EqualSigns {
+            self.ctx.seen_doc_title = true;
+          } else if self.ctx.in_header && token.kind == Word && !self.ctx.seen_doc_title {
+            // text before any doc title starts the body
+            self.ctx.in_header = false;
           } else if token.kind == Colon && self.ctx.subs.attr_refs() {
             self.try_parse_attr_def(&mut token)?;
           }
-- 
2.43.0


From 2f7b91515a963973fc3c61e83639dfa1e2a315c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 030/112] fix: let a modifiable job attribute override a
 built-in default

---
 core/src/document_meta.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..8b5e30b 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -209,14 +209,17 @@ impl DocumentMeta {
     }
   }
 
+  fn assigned_attr(&self, key: &str) -> Option<&AttrValue> {
+    self
+      .doc_attrs
+      .get(key)
+      .or_else(|| self.header_attrs.get(key))
+  }
+
   fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
-    match self.doc_attrs.get(key) {
-      Some(value) => Some(value),
-      None => match self.header_attrs.get(key) {
-        Some(value) => Some(value),
-        None => self.default_attrs.get(key),
-      },
-    }
+    self
+      .assigned_attr(key)
+      .or_else(|| self.default_attrs.get(key))
   }
 
   pub const fn header_attrs(&self) -> &Attrs {
@@ -240,7 +243,7 @@ impl ReadAttr for DocumentMeta {
 
       key => match self.job_attrs.get(key) {
         Some(JobAttr { readonly: true, value }) => Some(value),
-        Some(JobAttr { readonly: false, value }) => self.resolve_attr(key).or(Some(value)),
+        Some(JobAttr { readonly: false, value }) => self.assigned_attr(key).or(Some(value)),
         _ if key == "doctitle" => self
           .resolve_attr("doctitle")
           .or_else(|| self.resolve_attr("_asciidork_derived_doctitle")),
-- 
2.43.0


From d29357bcaf02436c0a068f1b31448a6aeae05701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 031/112] fix: keep the doctype given by the job

---
 core/src/document_meta.rs |  4 +++-
 core/src/job_settings.rs  | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 8b5e30b..aaefe3d 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -142,7 +142,9 @@ impl DocumentMeta {
     match key {
       "doctype" => {
         if let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) {
-          self.set_doctype(doctype);
+          if !self.job_attrs.get(key).is_some_and(|attr| attr.readonly) {
+            self.set_doctype(doctype);
+          }
         } else {
           return Err("Invalid doctype: expected `article`, `book`, `manpage`, or `inline`".into());
         }
diff --git a/core/src/job_settings.rs b/core/src/job_settings.rs
index b4c5ae5..1ef528c 100644
--- a/core/src/job_settings.rs
+++ b/core/src/job_settings.rs
@@ -60,15 +60,21 @@ impl From<JobSettings> for DocumentMeta {
     let JobSettings {
       mut job_attrs, doctype, safe_mode, ..
     } = settings;
+    // an explicit doctype wins over one set by a job attribute
+    let doctype_attr = job_attrs
+      .get("doctype")
+      .and_then(|attr| attr.value.str())
+      .and_then(|s| s.parse::<DocType>().ok())
+      .filter(|_| doctype.is_none());
     if let Some(doctype) = doctype {
       // if they set the doctype at the job level, it can't be changed
       job_attrs.insert_unchecked("doctype", JobAttr::readonly(doctype.to_str()));
-    } else {
+    } else if doctype_attr.is_none() {
       job_attrs.insert_unchecked("doctype", JobAttr::modifiable("article"));
     }
     let mut meta = DocumentMeta::new(safe_mode, job_attrs);
     meta.embedded = settings.embedded;
-    if let Some(doctype) = doctype {
+    if let Some(doctype) = doctype.or(doctype_attr) {
       meta.set_doctype(doctype);
     }
     meta
-- 
2.43.0


From 7a86d518020503b8cdd1cbd9d35579a52a4b399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 032/112] fix: keep parsing after a paragraph of references to
 attributes without a value

---
 parser/src/tasks/parse_block.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index dea8618..0af5f10 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -433,11 +433,16 @@ impl<'arena> Parser<'arena> {
 
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
+    let attr_ref_loc = lines
+      .current_token()
+      .filter(|token| token.kind(TokenKind::AttrRef))
+      .map(|token| token.loc);
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
+    // can be empty when parsing empty desc list principal, but a paragraph of
+    // references to attributes without a value is an empty paragraph
+    let Some(loc) = inlines.loc().or(attr_ref_loc.map(Into::into)) else {
       self.restore_lines(lines);
       return Ok(None);
     };
-- 
2.43.0


From b1e4e6280df7ad155abfd3d80e3a398be0490cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 033/112] fix: replace references to attributes set without a
 value by nothing

---
 parser/src/tasks/attr_refs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 2cf36a8..b659d05 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -74,9 +74,17 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
+          }
+          line.push(token);
+        }
+        // an attribute that is set without a value is replaced by nothing
+        Some(AttrValue::Bool(true)) => {
+          #[cfg(feature = "attr_ref_observation")]
+          if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
+            observer.attr_ref_replaced(token.attr_name(), token.loc);
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From 4c3f57eb7c9a96b8fecb726bd56eaf08b96caab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 034/112] fix: apply a body attribute entry to the directives
 that adjoin it

---
 parser/src/tasks/parse_block.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 0af5f10..413fc96 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -103,12 +103,9 @@ impl<'arena> Parser<'arena> {
           let replaced = self.replace_attr_vals(str_val);
           def.value = AttrValue::String(replaced.into_owned());
         }
-        lines.consume_current(); // attr def
-        if !lines.is_empty() {
-          // re-parse adjoining chunk, to resolve attr def
-          self.ctx.attr_defs.truncate(pos);
-          self.resume_after(&def);
-        }
+        // re-parse what adjoins the attr def, be it lines or only directives, to resolve it
+        self.ctx.attr_defs.truncate(pos);
+        self.resume_after(&def);
         self.ctx.attr_defs.push(def.clone());
         if let Err(err) = self
           .document
-- 
2.43.0


From 3e1a384915ebba32967916580b9056456725fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 035/112] fix: apply the attributes assigned in the body when
 rendering AsciiDoc table cells

---
 core/src/attrs.rs         | 4 ++++
 core/src/document_meta.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/core/src/attrs.rs b/core/src/attrs.rs
index 8368cb4..1db6a33 100644
--- a/core/src/attrs.rs
+++ b/core/src/attrs.rs
@@ -202,6 +202,10 @@ impl Attrs {
     Ok(())
   }
 
+  pub fn extend(&mut self, other: Self) {
+    self.0.extend(other.0);
+  }
+
   pub fn iter(&self) -> impl Iterator<Item = (&String, &AttrValue)> {
     self.0.iter()
   }
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index aaefe3d..145ae93 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -73,6 +73,8 @@ impl DocumentMeta {
 
   pub fn clone_for_cell(&self) -> Self {
     let mut dm = self.clone();
+    // to the cell, everything the parent document has assigned so far was assigned before it
+    dm.header_attrs.extend(std::mem::take(&mut dm.doc_attrs));
     dm.set_doctype(DocType::Article);
     // toc in asciidoc cells are disconnected, see:
     // https://github.com/asciidoctor/asciidoctor/issues/4017
-- 
2.43.0


From 1193857bfbcacd941b5a201922b1cd3cca835bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 036/112] fix: follow the attribute layers when the backends
 apply a body attribute entry

---
 backend-html5s/src/html5s.rs            | 11 +++++------
 dr-html-backend/src/asciidoctor_html.rs | 12 +++++-------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..9e8fa6b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1395,20 +1395,19 @@ impl Backend for Html5s {
   }
 
   fn visit_document_attribute_decl(&mut self, name: &str, value: &AttrValue) {
+    // TODO: consider warning?
+    _ = self.doc_meta.insert_doc_attr(name, value.clone());
     if name == "hardbreaks-option" {
-      if value.is_true() {
+      if self.doc_meta.is_true(name) {
         self.default_newlines = Newlines::JoinWithBreak;
         self.newlines = Newlines::JoinWithBreak;
       } else {
         self.default_newlines = Newlines::default();
         self.newlines = Newlines::default();
       }
-    } else if name == "sectnumlevels"
-      && let Some(level) = value.isize()
-    {
-      self.state.section_num_levels = level;
+    } else if name == "sectnumlevels" {
+      self.state.section_num_levels = self.doc_meta.isize(name).unwrap_or(3);
     }
-    _ = self.doc_meta.insert_doc_attr(name, value.clone());
   }
 
   fn enter_footnote(&mut self, id: Option<&SourceString>) {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..04a54ce 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1441,21 +1441,19 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_document_attribute_decl(&mut self, name: &str, value: &AttrValue) {
+    // TODO: consider warning?
+    _ = self.doc_meta.insert_doc_attr(name, value.clone());
     if name == "hardbreaks-option" {
-      if value.is_true() {
+      if self.doc_meta.is_true(name) {
         self.default_newlines = Newlines::JoinWithBreak;
         self.newlines = Newlines::JoinWithBreak;
       } else {
         self.default_newlines = Newlines::default();
         self.newlines = Newlines::default();
       }
-    } else if name == "sectnumlevels"
-      && let Some(level) = value.isize()
-    {
-      self.state.section_num_levels = level;
+    } else if name == "sectnumlevels" {
+      self.state.section_num_levels = self.doc_meta.isize(name).unwrap_or(3);
     }
-    // TODO: consider warning?
-    _ = self.doc_meta.insert_doc_attr(name, value.clone());
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 3388a8e5533f0673064452694134c7a15493612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 037/112] fix: keep the rest of a book with chapters before its
 parts, or sections after its closing ones

---
 parser/src/tasks/parse_book.rs | 75 ++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..f47935f 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -6,40 +6,40 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
 
-    let mut opening_special_sects = bvec![in self.bump];
+    let mut opening_sects = bvec![in self.bump];
     while let Some(special) = self.parse_special_sect()? {
-      opening_special_sects.push(special);
+      opening_sects.push(special);
     }
-    if self.lexer.is_eof() && !opening_special_sects.is_empty() {
+    if self.lexer.is_eof() && self.peeked_lines.is_none() && !opening_sects.is_empty() {
       return Ok(Some(DocContent::Sections(Sectioned {
         preamble: None,
-        sections: opening_special_sects,
+        sections: opening_sects,
       })));
     }
 
     if let Some(part) = self.parse_book_part()? {
-      let mut parts = bvec![in self.bump; part];
-      while let Some(part) = self.parse_book_part()? {
-        parts.push(part);
-      }
-      let mut closing_special_sects = bvec![in self.bump];
-      while let Some(special) = self.parse_special_sect()? {
-        closing_special_sects.push(special);
-      }
-      return Ok(Some(DocContent::Parts(MultiPartBook {
-        preamble: None,
-        opening_special_sects,
-        parts,
-        closing_special_sects,
-      })));
+      return self.parse_book_parts(part, None, opening_sects).map(Some);
     }
 
     if let Some(peeked) = self.peek_section()? {
       self.restore_peeked_section(peeked);
       let mut sectioned = self.parse_sectioned()?;
-      if !opening_special_sects.is_empty() {
-        opening_special_sects.extend(sectioned.sections);
-        sectioned.sections = opening_special_sects;
+      if !opening_sects.is_empty() {
+        opening_sects.extend(sectioned.sections);
+        sectioned.sections = opening_sects;
+      }
+      // NB: special sections might be written as level 0
+      while let Some(special) = self.parse_special_sect()? {
+        sectioned.sections.push(special);
+        while let Some(section) = self.parse_section()? {
+          sectioned.sections.push(section);
+        }
+      }
+      // chapters might precede the first part
+      if let Some(part) = self.parse_book_part()? {
+        return self
+          .parse_book_parts(part, sectioned.preamble, sectioned.sections)
+          .map(Some);
       }
       return Ok(Some(DocContent::Sections(sectioned)));
     }
@@ -65,7 +65,10 @@ impl<'arena> Parser<'arena> {
           sections: sectioned.sections,
         })))
       }
-      Some(DocContent::Blocks(_)) => unreachable!(),
+      Some(DocContent::Blocks(more)) => {
+        blocks.extend(more);
+        Ok(Some(DocContent::Blocks(blocks)))
+      }
       Some(DocContent::Parts(book)) => {
         if let Some(preamble) = book.preamble {
           blocks.extend(preamble);
@@ -78,6 +81,34 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  fn parse_book_parts(
+    &mut self,
+    first: Part<'arena>,
+    preamble: Option<BumpVec<'arena, Block<'arena>>>,
+    opening_special_sects: BumpVec<'arena, Section<'arena>>,
+  ) -> Result<DocContent<'arena>> {
+    let mut parts = bvec![in self.bump; first];
+    while let Some(part) = self.parse_book_part()? {
+      parts.push(part);
+    }
+    let mut closing_special_sects = bvec![in self.bump];
+    while let Some(peeked) = self.peek_section()? {
+      if peeked.is_special_sect() {
+        self.restore_peeked_section(peeked);
+        closing_special_sects.extend(self.parse_special_sect()?);
+      } else {
+        // malformed book: parts or chapters after the closing special sections
+        closing_special_sects.push(self.parse_peeked_section(peeked)?);
+      }
+    }
+    Ok(DocContent::Parts(MultiPartBook {
+      preamble,
+      opening_special_sects,
+      parts,
+      closing_special_sects,
+    }))
+  }
+
   fn parse_special_sect(&mut self) -> Result<Option<Section<'arena>>> {
     let Some(mut peeked) = self.peek_section()? else {
       return Ok(None);
-- 
2.43.0


From 357baa60d5241bd1857ec93a996980545afb7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 038/112] fix: keep text directly below the title of a book
 part

---
 parser/src/tasks/parse_book_part.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..a3b98cf 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -20,7 +20,10 @@ impl<'arena> Parser<'arena> {
       semantic_level,
     } = peeked;
     let mut heading_line = lines.consume_current().unwrap();
-    let equals = heading_line.consume_current().unwrap();
+    let mut marker_loc = heading_line.consume_current().unwrap().loc;
+    while heading_line.current_is(TokenKind::Hash) {
+      marker_loc.extend(heading_line.consume_current().unwrap().loc);
+    }
     heading_line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
@@ -33,10 +36,15 @@ impl<'arena> Parser<'arena> {
     );
 
     if let Some(id) = &id {
+      let reftext = meta
+        .attrs
+        .iter()
+        .find_map(|a| a.named.get("reftext"))
+        .cloned();
       self.document.anchors.borrow_mut().insert(
         id.clone(),
         Anchor {
-          reftext: None,
+          reftext,
           title: heading.clone(),
           source_loc: None,
           source_idx: self.lexer.source_idx(),
@@ -46,12 +54,13 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut title = PartTitle { meta, text: heading, id };
+    self.restore_lines(lines);
     let Sectioned { mut preamble, sections } = self.parse_sectioned()?;
 
     if sections.is_empty() {
       self.err_line_starting(
         "Invalid empty book part, must have at least one section",
-        equals.loc,
+        marker_loc,
       )?;
     }
 
-- 
2.43.0


From c207a69a327b73d8b01ae672876f5ae71c159399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 039/112] fix: do not read a line with more than six markers as
 a section title

---
 parser/src/line.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a318955..218aebb 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -228,15 +228,19 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
+    self.heading_marker_level().filter(|level| *level < 6)
+  }
+
+  fn heading_marker_level(&self) -> Option<u8> {
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      u8::try_from(self.current_token().unwrap().lexeme.len() - 1).ok()
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
       if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
-        Some((num_hashes - 1) as u8)
+        u8::try_from(num_hashes - 1).ok()
       } else {
         None
       }
-- 
2.43.0


From d24ad7e2806b311fed30f15c6172c2eb2e6aa3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 040/112] fix: do not start a section within a delimited block

---
 parser/src/tasks/parse_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 413fc96..5ec33db 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -23,7 +23,7 @@ impl<'arena> Parser<'arena> {
     }
 
     match self.section_start_level(&lines, &meta) {
-      Some(0 | 1) if self.ctx.delimiter.is_some() => {}
+      Some(_) if self.ctx.delimiter.is_some() => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
         self.restore_peeked(lines, meta);
-- 
2.43.0


From 84c2f0191a788da7b470d2fc91118e13dddc2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 041/112] fix: list out of sequence sections in the table of
 contents, without panicking

---
 parser/src/tasks/parse_book_part.rs |  3 +--
 parser/src/tasks/parse_section.rs   | 39 ++++++-----------------------
 2 files changed, 8 insertions(+), 34 deletions(-)

diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index a3b98cf..cded5c1 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -17,7 +17,7 @@ impl<'arena> Parser<'arena> {
       meta,
       mut lines,
       authored_level,
-      semantic_level,
+      ..
     } = peeked;
     let mut heading_line = lines.consume_current().unwrap();
     let mut marker_loc = heading_line.consume_current().unwrap().loc;
@@ -29,7 +29,6 @@ impl<'arena> Parser<'arena> {
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
     self.push_toc_node(
       authored_level,
-      semantic_level,
       &heading,
       id.as_ref(),
       meta.attrs.special_sect(),
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..90455ef 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -94,15 +94,12 @@ impl<'arena> Parser<'arena> {
     }
 
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
-    if !out_of_sequence {
-      self.push_toc_node(
-        authored_level,
-        semantic_level,
-        &heading,
-        id.as_ref(),
-        meta.attrs.special_sect(),
-      );
-    }
+    self.push_toc_node(
+      authored_level,
+      &heading,
+      id.as_ref(),
+      meta.attrs.special_sect(),
+    );
 
     if let Some(id) = &id {
       let reftext = meta
@@ -168,7 +165,6 @@ impl<'arena> Parser<'arena> {
   pub fn push_toc_node(
     &mut self,
     authored_level: u8,
-    semantic_level: u8,
     heading: &InlineNodes<'arena>,
     as_ref: Option<&BumpString<'arena>>,
     special_sect: Option<SpecialSection>,
@@ -187,29 +183,8 @@ impl<'arena> Parser<'arena> {
       children: BumpVec::new_in(self.bump),
     };
     let mut nodes: &mut BumpVec<'_, TocNode<'_>> = toc.nodes.as_mut();
-    let Some(last_level) = nodes.last().map(|n| n.level) else {
-      nodes.push(node);
-      return;
-    };
-    if authored_level < last_level || authored_level == 0 {
-      nodes.push(node);
-      return;
-    }
-
-    let mut depth = semantic_level;
-
-    // special case: book special sections can go from 0 to 2
-    if last_level == 0
-      && semantic_level == 2
-      && !nodes.last().unwrap().children.iter().any(|n| n.level == 1)
-    {
-      depth = 1;
-    }
-
-    while depth > last_level {
-      // we don't push out of sequence sections, shouldn't panic
+    while nodes.last().is_some_and(|last| last.level < authored_level) {
       nodes = nodes.last_mut().unwrap().children.as_mut();
-      depth -= 1;
     }
     nodes.push(node);
   }
-- 
2.43.0


From a3c40c0e65caacee83927ada078cc11c53959919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 042/112] fix: render sections that precede the first part
 after the preamble, not within it

---
 eval/src/eval.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..cec55fb 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -92,18 +92,13 @@ fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
     backend.enter_preamble(ctx.doc.title().is_some(), blocks);
     blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
     eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
     backend.exit_preamble(ctx.doc.title().is_some(), blocks);
-  } else {
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
   }
+  book
+    .opening_special_sects
+    .iter()
+    .for_each(|sect| eval_section(sect, ctx, backend));
   book
     .parts
     .iter()
-- 
2.43.0


From a58c3d03548bf5a79a70c7e25fda967d2f211f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 043/112] fix: end the document header at a section title

---
 parser/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 3c7b587..fa95aee 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -127,7 +127,10 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.in_header = false;
           } else if self.ctx.in_header && token.kind == EqualSigns {
-            self.ctx.seen_doc_title = true;
+            // a section title also starts the body
+            let level = i8::try_from(token.lexeme.len() - 1).unwrap_or(i8::MAX);
+            self.ctx.seen_doc_title = level.saturating_add(self.ctx.leveloffset) <= 0;
+            self.ctx.in_header = self.ctx.seen_doc_title;
           } else if self.ctx.in_header && token.kind == Word && !self.ctx.seen_doc_title {
             // text before any doc title starts the body
             self.ctx.in_header = false;
-- 
2.43.0


From 9f826407c469bc518fcc14a9f7bf8286b19c1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 044/112] fix: apply level offsets where they are assigned, if
 at all, and within nested includes

---
 core/src/document_meta.rs                       |  6 +++++-
 .../directives/includes/process_includes.rs     |  6 +++++-
 parser/src/tasks/heading_level.rs               | 15 ++++++++-------
 parser/src/tasks/parse_block.rs                 |  5 +++--
 parser/src/tasks/parse_doc_attrs.rs             | 17 +++++++++++------
 5 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 145ae93..00e5646 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -144,7 +144,7 @@ impl DocumentMeta {
     match key {
       "doctype" => {
         if let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) {
-          if !self.job_attrs.get(key).is_some_and(|attr| attr.readonly) {
+          if !self.is_job_readonly(key) {
             self.set_doctype(doctype);
           }
         } else {
@@ -185,6 +185,10 @@ impl DocumentMeta {
     self.job_attrs.insert(key.into(), job_attr)
   }
 
+  pub fn is_job_readonly(&self, key: &str) -> bool {
+    self.job_attrs.get(key).is_some_and(|attr| attr.readonly)
+  }
+
   pub fn clear_doc_attrs(&mut self) {
     self.doc_attrs = Attrs::empty();
   }
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 708b3ec..69fd662 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -90,7 +90,10 @@ impl<'arena> Parser<'arena> {
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
-        let mut leveloffset = 0;
+        // the offset in force here, relative to that of the attribute
+        let attr_offset = self.ctx.leveloffset;
+        let mut leveloffset =
+          attr_offset.saturating_add(self.lexer.leveloffset(directive.first_token.loc.include_depth));
         if let Some(offset_attr) = directive
           .attrs
           .named("leveloffset")
@@ -98,6 +101,7 @@ impl<'arena> Parser<'arena> {
         {
           Parser::adjust_leveloffset(&mut leveloffset, &offset_attr);
         }
+        leveloffset = leveloffset.saturating_sub(attr_offset);
         let include_depth = directive
           .attrs
           .named("depth")
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..ef772ad 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -3,11 +3,12 @@ use crate::internal::*;
 impl<'arena> Parser<'arena> {
   pub fn line_heading_level(&self, line: &Line) -> Option<u8> {
     let unadjusted = line.unadjusted_heading_level()?;
+    let file_offset = self
+      .lexer
+      .leveloffset(line.first_loc().unwrap().include_depth);
     Some(adjusted_leveloffset(
-      self
-        .lexer
-        .leveloffset(line.first_loc().unwrap().include_depth),
-      adjusted_leveloffset(self.ctx.leveloffset, unadjusted),
+      self.ctx.leveloffset.saturating_add(file_offset),
+      unadjusted,
     ))
   }
 
@@ -37,9 +38,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -54,6 +55,6 @@ const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
+  let new_level = (heading_level as i8).saturating_add(leveloffset);
   if new_level < 0 { 0 } else { new_level as u8 }
 }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5ec33db..4feba7e 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -107,12 +107,13 @@ impl<'arena> Parser<'arena> {
         self.ctx.attr_defs.truncate(pos);
         self.resume_after(&def);
         self.ctx.attr_defs.push(def.clone());
-        if let Err(err) = self
+        match self
           .document
           .meta
           .insert_doc_attr(def.name.as_str(), def.value.clone())
         {
-          self.err_at(err, def.loc)?;
+          Ok(()) => self.update_leveloffset(&def.name, &def.value),
+          Err(err) => self.err_at(err, def.loc)?,
         }
         return Ok(Some(Block {
           meta,
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index d3cedb2..72bf2a6 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -165,10 +165,6 @@ impl<'arena> Parser<'arena> {
     let attr_name = name.clone();
     let attr_value = value.clone();
 
-    if name == "leveloffset" {
-      Parser::adjust_leveloffset(&mut self.ctx.leveloffset, &value);
-    }
-
     if self.ctx.in_header {
       // https://docs.asciidoctor.org/asciidoc/latest/document/author-attribute-entries/
       let mut attr_author: Option<Author> = None;
@@ -183,8 +179,9 @@ impl<'arena> Parser<'arena> {
       {
         author.email = value.str().map(|s| s.to_string());
       }
-      if let Err(err) = self.document.meta.insert_header_attr(name, value) {
-        self.err_at(err, attr_def_loc)?;
+      match self.document.meta.insert_header_attr(name, value) {
+        Ok(()) => self.update_leveloffset(name, &attr_value),
+        Err(err) => self.err_at(err, attr_def_loc)?,
       }
       if let Some(author) = attr_author {
         self.document.meta.add_author(author);
@@ -215,6 +212,14 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  /// to be called when an assignment takes effect, which for the document
+  /// body is not when it's read, but when the lines above it have been parsed
+  pub(crate) fn update_leveloffset(&mut self, name: &str, value: &AttrValue) {
+    if name == "leveloffset" && !self.document.meta.is_job_readonly(name) {
+      Parser::adjust_leveloffset(&mut self.ctx.leveloffset, value);
+    }
+  }
+
   /// return to the point just after an attr def, as if nothing after it had been read
   pub(crate) fn resume_after(&mut self, def: &AttrDef) {
     let resume = &def.resume;
-- 
2.43.0


From 0ba693e767e71918ba4a70db856dec28801c7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 045/112] fix: keep the last section of a book that starts with
 text

---
 parser/src/tasks/parse_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index f47935f..7a893f8 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -48,7 +48,7 @@ impl<'arena> Parser<'arena> {
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() {
+    if self.lexer.is_eof() && self.peeked_lines.is_none() {
       return Ok(Some(DocContent::Blocks(blocks)));
     }
 
-- 
2.43.0


From 6b4d66ce010c345aa10284bc4a75c8fc2b51169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 046/112] fix: keep the diagnostics of the lines above an
 attribute entry in an included file

---
 parser/src/lexer/root_lexer.rs      | 7 +++++++
 parser/src/tasks/parse_doc_attrs.rs | 7 ++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 4c7f39a..5cc9581 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -225,6 +225,13 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf = None;
   }
 
+  /// was this line read before the mark?
+  pub fn precedes_mark(&self, mark: &LexerMark, file: &SourceFile, line_num: u32) -> bool {
+    self.sources.iter().zip(&mark.positions).any(|(source, pos)| {
+      source.file == *file && *pos > 0 && source.line_number_with_offset(pos - 1).0 >= line_num
+    })
+  }
+
   pub fn leveloffset(&self, idx: u16) -> i8 {
     self.sources[idx as usize].leveloffset
   }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 72bf2a6..a44bed1 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -223,12 +223,13 @@ impl<'arena> Parser<'arena> {
   /// return to the point just after an attr def, as if nothing after it had been read
   pub(crate) fn resume_after(&mut self, def: &AttrDef) {
     let resume = &def.resume;
-    let file = self.lexer.source_file_at(def.loc.include_depth);
-    let line = self.lexer.line_number(def.loc);
     let mut idx = 0;
     self.errors.borrow_mut().retain(|err| {
       idx += 1;
-      idx <= resume.num_errors || (err.source_file == *file && err.line_num <= line)
+      idx <= resume.num_errors
+        || self
+          .lexer
+          .precedes_mark(&resume.lexer, &err.source_file, err.line_num)
     });
     self.lexer.rewind(&resume.lexer);
     self.ctx.leveloffset = resume.leveloffset;
-- 
2.43.0


From 4e4faf5b5217a157a41908d6e46d66f4056bc9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 047/112] fix: do not panic when rendering a section pushed
 below level 6 by an offset

---
 backend/src/html/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backend/src/html/util.rs b/backend/src/html/util.rs
index ec973bd..95cbabb 100644
--- a/backend/src/html/util.rs
+++ b/backend/src/html/util.rs
@@ -8,8 +8,8 @@ pub fn section_class(section: &Section) -> &'static str {
     3 => "sect3",
     4 => "sect4",
     5 => "sect5",
-    6 => "sect6",
-    _ => unreachable!("section::class() level={}", section.level),
+    // NB: a level offset can push sections below the deepest level
+    6.. => "sect6",
   }
 }
 
-- 
2.43.0


From 9c419944739bf340d7cbcdda9e444323422a0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 048/112] fix: keep the lists around a delimited block out of
 its content

---
 parser/src/tasks/parse_block.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 4feba7e..7f6a197 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -332,6 +332,8 @@ impl<'arena> Parser<'arena> {
 
     let prev = self.ctx.delimiter;
     self.ctx.delimiter = Some(delimiter);
+    // the block's lines don't belong to the lists around it
+    let prev_list = std::mem::take(&mut self.ctx.list);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
     let restore_subs = self.ctx.set_subs_for(context, &meta);
@@ -409,6 +411,7 @@ impl<'arena> Parser<'arena> {
     };
 
     self.ctx.delimiter = prev;
+    self.ctx.list = prev_list;
     Ok(Some(Block {
       content,
       context,
-- 
2.43.0


From 120015dd0b986f0d0c07bc0e6f394657b4f77aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 049/112] fix: end an attached paragraph at the next item, skip
 comment lines in a list item

---
 parser/src/tasks/parse_inlines/mod.rs | 13 +++++++++++--
 parser/src/tasks/parse_list.rs        |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..716b72f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1009,8 +1009,11 @@ impl<'arena> Parser<'arena> {
       && (line.starts_description_list_item() || line.is_list_continuation())
     )
 
-    // list continuation
-    || (self.ctx.list.parsing_continuations && line.is_list_continuation())
+    // list continuation, or the next item of one of the open lists
+    || (
+      self.ctx.list.parsing_continuations
+      && (line.is_list_continuation() || self.starts_next_list_item(line))
+    )
 
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
@@ -1020,6 +1023,12 @@ impl<'arena> Parser<'arena> {
     )
   }
 
+  fn starts_next_list_item(&self, line: &Line<'arena>) -> bool {
+    line
+      .list_marker()
+      .is_some_and(|marker| !self.ctx.list.stack.starts_nested_list(marker))
+  }
+
   fn recover_custom_line_comment(&mut self, state: &mut Accum<'arena>) {
     let Some(ref comment_bytes) = self.ctx.custom_line_comment else {
       return;
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..b879d0b 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -107,10 +107,13 @@ impl<'arena> Parser<'arena> {
     }
     while lines
       .current()
-      .map(|line| line.continues_list_item_principle())
+      .map(|line| line.is_comment() || line.continues_list_item_principle())
       .unwrap_or(false)
     {
       let mut line = lines.consume_current().unwrap();
+      if line.is_comment() {
+        continue;
+      }
       line.discard_leading_whitespace();
       item_lines.push(line);
     }
-- 
2.43.0


From 5cc99f77b8cdb6aa3e5b0a603407423f312cec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 050/112] fix: end a description at an item of a nested list

---
 parser/src/tasks/parse_inlines/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 716b72f..5ec5ac9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1015,6 +1015,9 @@ impl<'arena> Parser<'arena> {
       && (line.is_list_continuation() || self.starts_next_list_item(line))
     )
 
+    // a list nested in a description
+    || (self.ctx.parsing_simple_desc_def() && line.starts_list_item())
+
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
     || (
-- 
2.43.0


From 3522986c192175497cc5549f73db9c6589f6b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 051/112] fix: leave items of open lists out of attached lists
 and empty descriptions

---
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 parser/src/tasks/parse_list.rs        | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 5ec5ac9..31a6b47 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1026,7 +1026,7 @@ impl<'arena> Parser<'arena> {
     )
   }
 
-  fn starts_next_list_item(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn starts_next_list_item(&self, line: &Line<'arena>) -> bool {
     line
       .list_marker()
       .is_some_and(|marker| !self.ctx.list.stack.starts_nested_list(marker))
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index b879d0b..1cd331d 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -16,6 +16,7 @@ impl<'arena> Parser<'arena> {
     self.restore_lines(lines);
 
     self.ctx.list.stack.push(marker);
+    let prev_continuations = std::mem::take(&mut self.ctx.list.parsing_continuations);
     let depth = self.ctx.list.stack.depth();
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
@@ -38,6 +39,7 @@ impl<'arena> Parser<'arena> {
       self.ctx.bibliography_ctx = BiblioContext::Section;
     }
     self.ctx.list.stack.pop();
+    self.ctx.list.parsing_continuations = prev_continuations;
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
     }
@@ -222,9 +224,13 @@ impl<'arena> Parser<'arena> {
       self.restore_lines(lines);
     }
 
-    let description = self
-      .parse_block()?
-      .filter(|block| block.context != BlockContext::Comment);
+    let description = if self.next_item_follows()? {
+      None
+    } else {
+      self
+        .parse_block()?
+        .filter(|block| block.context != BlockContext::Comment)
+    };
 
     Ok(Some(ListItem {
       blocks: self.parse_description_list_item_blocks()?,
@@ -235,6 +241,16 @@ impl<'arena> Parser<'arena> {
     }))
   }
 
+  /// whether the lines to come start with an item of one of the open lists
+  fn next_item_follows(&mut self) -> Result<bool> {
+    let Some(lines) = self.read_lines()? else {
+      return Ok(false);
+    };
+    let follows = lines.current().is_some_and(|line| self.starts_next_list_item(line));
+    self.restore_lines(lines);
+    Ok(follows)
+  }
+
   fn parse_description_list_term(
     &mut self,
     line: &mut Line<'arena>,
-- 
2.43.0


From c509fac414c5fea6970a9559abbf86dc3411ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 052/112] fix: trim a literal paragraph that other lines follow
 directly

---
 parser/src/chunk.rs                   | 11 ++++++++---
 parser/src/contiguous_lines.rs        |  8 +++++---
 parser/src/tasks/parse_block.rs       |  4 +++-
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/parser/src/chunk.rs b/parser/src/chunk.rs
index f451575..c1659e5 100644
--- a/parser/src/chunk.rs
+++ b/parser/src/chunk.rs
@@ -3,7 +3,8 @@ use crate::variants::token::*;
 
 pub trait ChunkMetaExt<'arena> {
   fn block_style_or(&self, default: BlockContext) -> BlockContext;
-  fn block_paragraph_context(&self, lines: &mut ContiguousLines) -> BlockContext;
+  fn block_paragraph_context(&self, lines: &mut ContiguousLines, num_lines: usize)
+  -> BlockContext;
 }
 
 impl<'arena> ChunkMetaExt<'arena> for ChunkMeta<'arena> {
@@ -11,8 +12,12 @@ impl<'arena> ChunkMetaExt<'arena> for ChunkMeta<'arena> {
     self.attrs.block_style(context).unwrap_or(context)
   }
 
-  fn block_paragraph_context(&self, lines: &mut ContiguousLines) -> BlockContext {
-    let uniform_indented = lines.trim_uniform_leading_whitespace();
+  fn block_paragraph_context(
+    &self,
+    lines: &mut ContiguousLines,
+    num_lines: usize,
+  ) -> BlockContext {
+    let uniform_indented = lines.trim_uniform_leading_whitespace(num_lines);
 
     // line from block attrs takes precedence
     if let Some(block_style) = self.attrs.block_style(BlockContext::Paragraph) {
diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index c40a57e..7d9ed88 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -47,7 +47,7 @@ impl<'arena> ContiguousLines<'arena> {
     self.current()
   }
 
-  pub fn iter(&'arena self) -> impl ExactSizeIterator<Item = &'arena Line<'arena>> + 'arena {
+  pub fn iter(&self) -> impl ExactSizeIterator<Item = &Line<'arena>> {
     self.lines.iter()
   }
 
@@ -274,7 +274,8 @@ impl<'arena> ContiguousLines<'arena> {
     false
   }
 
-  pub fn trim_uniform_leading_whitespace(&mut self) -> bool {
+  /// trims the uniform leading whitespace of the first `num_lines` lines
+  pub fn trim_uniform_leading_whitespace(&mut self, num_lines: usize) -> bool {
     if self.is_empty() || !self.first().unwrap().starts(Whitespace) {
       return false;
     }
@@ -282,12 +283,13 @@ impl<'arena> ContiguousLines<'arena> {
     if !self
       .lines
       .iter()
+      .take(num_lines)
       .all(|l| l.current_satisfies(Len(len as u8, Whitespace)) && l.num_tokens() > 1)
     {
       return false;
     }
 
-    for line in self.lines.iter_mut() {
+    for line in self.lines.iter_mut().take(num_lines) {
       line.discard_assert(Whitespace);
     }
     true
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 7f6a197..bde35f3 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -429,7 +429,9 @@ impl<'arena> Parser<'arena> {
       lines.current_mut().map(|l| l.discard_leading_whitespace());
     }
 
-    let context = meta.block_paragraph_context(&mut lines);
+    // the lines can go on after the end of the paragraph
+    let num_lines = 1 + lines.iter().skip(1).take_while(|line| !self.should_stop_at(line)).count();
+    let context = meta.block_paragraph_context(&mut lines, num_lines);
     self.maybe_set_admonition_icon_uri(context, &meta)?;
 
     // TODO: probably a better stack-like context API is possible here...
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 31a6b47..c796049 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -996,7 +996,7 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
-  fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn should_stop_at(&self, line: &Line<'arena>) -> bool {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
-- 
2.43.0


From f0c76fdb3b7a94097817f0d9e3298433675a9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 053/112] fix: parse description lists inside delimited blocks
 item by item

---
 parser/src/parse_context.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 442d4a1..05f40da 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -226,12 +226,11 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
-      && self
-        .list
-        .stack
-        .last()
-        .is_some_and(|last| last.is_description())
+    self
+      .list
+      .stack
+      .last()
+      .is_some_and(|last| last.is_description())
   }
 
   pub fn within_block_comment(&self) -> bool {
-- 
2.43.0


From 15d7cdc04b4c685e83695f63a021a196cc318cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 054/112] fix: separate a list with attributes from the
 description list above

---
 parser/src/tasks/parse_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 1cd331d..a4ce1b6 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -288,13 +288,15 @@ impl<'arena> Parser<'arena> {
 
   fn parse_description_list_item_blocks(&mut self) -> Result<BumpVec<'arena, Block<'arena>>> {
     let mut blocks = BumpVec::new_in(self.bump);
+    // after an empty line, block attributes start a new list
+    let contiguous = self.peeked_lines.is_some();
     let Some(lines) = self.read_lines()? else {
       return Ok(blocks);
     };
     if lines.starts_list_continuation() {
       self.restore_lines(lines);
       blocks = self.parse_list_continuation_blocks(blocks)?;
-    } else if lines.starts_nested_list(&self.ctx.list.stack, true) {
+    } else if lines.starts_nested_list(&self.ctx.list.stack, contiguous) {
       self.restore_lines(lines);
       if let Some(block) = self.parse_block()? {
         blocks.push(block);
-- 
2.43.0


From c813d27ae909ac813b94feda5bdc04f72bc133d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 055/112] fix: recognize indented nested list items and item
 text starting with a plus

---
 core/src/regx.rs   | 2 +-
 parser/src/line.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 2bc4a5b..849f75b 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -41,7 +41,7 @@ lazy_static! {
 
 // line
 lazy_static! {
-  pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s?(\*+)( |\t)+.+"#).unwrap();
+  pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s*(\*+)( |\t)+.+"#).unwrap();
 }
 
 // keyboard macro
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 218aebb..647440a 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -844,7 +844,8 @@ impl<'arena> Line<'arena> {
       return false;
     }
     match self.current_token().map(|t| t.kind) {
-      None | Some(Plus) => false,
+      None => false,
+      Some(Plus) => !self.is_list_continuation(),
       Some(OpenBracket) => !self.is_block_attr_list(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
-- 
2.43.0


From caacf39af72c3d68de7fb99641fb144d35173e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 056/112] fix: keep the paragraphs of blocks that describe a
 term in html5s

---
 backend-html5s/src/html5s.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 9e8fa6b..78ef595 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -589,7 +589,10 @@ impl Backend for Html5s {
     self.push_str("</dd>");
   }
 
-  fn enter_description_list_description_text(&mut self, _text: &Block, item: &ListItem) {
+  fn enter_description_list_description_text(&mut self, text: &Block, item: &ListItem) {
+    if !matches!(text.content, BlockContent::Simple { .. }) {
+      return;
+    }
     let first = item.blocks.first();
     if first.is_none() || !matches!(first.unwrap().content, BlockContent::Simple { .. }) {
       self.state.ephemeral.insert(VisitingSimpleTermDescription);
-- 
2.43.0


From d2384904905dc59a6b7acc55c4902739b6cb59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 057/112] fix: separate a list with attributes from a list that
 describes a term

---
 parser/src/tasks/parse_list.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index a4ce1b6..3ee0401 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -232,8 +232,12 @@ impl<'arena> Parser<'arena> {
         .filter(|block| block.context != BlockContext::Comment)
     };
 
+    // after an empty line, block attributes start a new list
+    let is_list = |block: &Block| matches!(block.content, BlockContent::List { .. });
+    let contiguous = self.peeked_lines.is_some() && !description.as_ref().is_some_and(is_list);
+
     Ok(Some(ListItem {
-      blocks: self.parse_description_list_item_blocks()?,
+      blocks: self.parse_description_list_item_blocks(contiguous)?,
       marker,
       marker_src,
       type_meta: ListItemTypeMeta::DescList { description, extra_terms },
@@ -286,10 +290,11 @@ impl<'arena> Parser<'arena> {
     self.gather_extra_terms(marker, terms)
   }
 
-  fn parse_description_list_item_blocks(&mut self) -> Result<BumpVec<'arena, Block<'arena>>> {
+  fn parse_description_list_item_blocks(
+    &mut self,
+    contiguous: bool,
+  ) -> Result<BumpVec<'arena, Block<'arena>>> {
     let mut blocks = BumpVec::new_in(self.bump);
-    // after an empty line, block attributes start a new list
-    let contiguous = self.peeked_lines.is_some();
     let Some(lines) = self.read_lines()? else {
       return Ok(blocks);
     };
-- 
2.43.0


From c6df780d410e88341a8a6a9d6588f075676f2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 058/112] fix: end a paragraph in a delimited block at the next
 block's attributes

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c796049..9298b15 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1001,7 +1001,7 @@ impl<'arena> Parser<'arena> {
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
-- 
2.43.0


From a08c21df6c93afc34064d755662052e0f7d7bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 059/112] fix: keep comment lines and white space in verse and
 passthrough blocks

---
 parser/src/tasks/parse_inlines/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 9298b15..b0586ed 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -38,7 +38,7 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs);
       }
 
-      if line.is_comment() && !subs.callouts() {
+      if line.is_comment() && !subs.callouts() && self.ctx.can_nest_blocks {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
@@ -791,7 +791,11 @@ impl<'arena> Parser<'arena> {
             }
           }
 
-          Whitespace if token.lexeme.len() > 1 && subs.inline_formatting() => {
+          Whitespace
+            if token.lexeme.len() > 1
+              && subs.inline_formatting()
+              && self.ctx.can_nest_blocks =>
+          {
             acc.push_node(MultiCharWhitespace(token.lexeme), token.loc);
           }
 
-- 
2.43.0


From a11b2d958619c485632fe09892fe0f1586a96a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 060/112] fix: keep the lines of raw passthrough blocks

---
 backend-html5s/src/html5s.rs            | 4 +++-
 dr-html-backend/src/asciidoctor_html.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 78ef595..d470783 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -283,7 +283,9 @@ impl Backend for Html5s {
     if block.context == BlockContext::BlockQuote {
       self.push_str("<p>");
     }
-    if block.meta.attrs.has_option("hardbreaks") {
+    if matches!(block.context, BlockContext::Verse | BlockContext::Passthrough) {
+      self.newlines = Newlines::Preserve;
+    } else if block.meta.attrs.has_option("hardbreaks") {
       self.newlines = Newlines::JoinWithBreak;
     }
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 04a54ce..420ca30 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -323,7 +323,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_simple_block_content(&mut self, block: &Block) {
-    if block.context == BlockContext::Verse {
+    let raw = block.context == BlockContext::Passthrough && block.meta.attrs.named("subs").is_none();
+    if block.context == BlockContext::Verse || raw {
       self.newlines = Newlines::Preserve;
     } else if block.meta.attrs.has_option("hardbreaks") {
       self.newlines = Newlines::JoinWithBreak;
-- 
2.43.0


From 3d90e19e4559e3cf0edead7bd2b2eac7e0bbaf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 061/112] fix: keep a plus at the end of a line of a verbatim
 block

---
 parser/src/tasks/parse_inlines/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index b0586ed..0e01623 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -800,7 +800,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
-- 
2.43.0


From 00f6bcafd5d5e3622b0e3ed1d8f133b78a9aee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 062/112] fix: keep underscores and drop commas in words of
 generated section ids

---
 parser/src/tasks/section_id.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..3d70efd 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -55,15 +55,17 @@ impl<'arena> Parser<'arena> {
     let mut last_c = prefix.chars().last().unwrap_or('\0');
     id.push_str(prefix);
 
+    let mut prev_c = '\0';
     let mut chars = line.chars().peekable();
     while let Some(c) = chars.next() {
+      let after_c = std::mem::replace(&mut prev_c, c);
       match c {
         '<' if chars.peek() == Some(&'<') => {
           chars.next();
         }
         '<' => in_html_tag = true,
         '>' => in_html_tag = false,
-        ' ' | '-' | '.' | ',' | '\t' => {
+        ' ' | '-' | '.' | '\t' => {
           if separator.map(|c| c != last_c).unwrap_or(false) {
             id.push(separator.unwrap());
             last_c = separator.unwrap();
@@ -79,6 +81,11 @@ impl<'arena> Parser<'arena> {
           return self._autogen_sect_id(&sans_entities, prefix, separator, true, removed_aux_ids);
         }
         _ if in_html_tag => {}
+        // an underscore in a word belongs to it, others are formatting marks
+        '_' if after_c.is_alphanumeric() && chars.peek().is_some_and(|c| c.is_alphanumeric()) => {
+          last_c = c;
+          id.push(c);
+        }
         mut c if c.is_ascii_alphanumeric() => {
           c.make_ascii_lowercase();
           last_c = c;
-- 
2.43.0


From b0646c2b64f2d4ed41eefd85b7b97c3f9a0128e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 063/112] fix: recognise inline anchors whose id starts with an
 underscore

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 647440a..1bf6c59 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -932,7 +932,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon])]) {
+    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon, Underscore])]) {
       return false;
     }
     let Some(close_idx) = self.index_of_seq(&[Kind(CloseBracket); 2]) else {
-- 
2.43.0


From ee9ac00b8ce365d35161c6b2f4f2beb207d3e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 064/112] fix: register ids of blocks as anchors with their
 reference text

---
 parser/src/parser.rs            |  5 ++++-
 parser/src/tasks/anchors.rs     | 12 ++++++++++++
 parser/src/tasks/parse_block.rs |  1 +
 parser/src/tasks/section_id.rs  | 14 +++++++++-----
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index fa95aee..645d7e2 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -362,7 +362,10 @@ impl<'arena> Parser<'arena> {
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
+          if let Some(reftext) = anchor.reftext {
+            let key = SourceString::new(self.string("reftext"), anchor.loc);
+            anchor_attrs.insert_named(key, reftext);
+          }
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..0877e41 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -27,6 +27,18 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  pub(crate) fn register_block_id(&mut self, meta: &ChunkMeta<'arena>) -> Result<()> {
+    let Some(id) = meta.attrs.iter().find_map(|attrs| attrs.id.as_ref()) else {
+      return Ok(());
+    };
+    let named = |name| meta.attrs.iter().find_map(|attrs| attrs.named.get(name));
+    let mut anchor = self.anchor_from(named("reftext").cloned(), Some(id.loc), false);
+    if let Some(title) = named("title").or(meta.dot_line_title.as_ref()) {
+      anchor.title = title.clone();
+    }
+    self.insert_anchor(id, anchor)
+  }
+
   pub(crate) fn anchor_from(
     &self,
     reftext: Option<InlineNodes<'arena>>,
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index bde35f3..154feb9 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -50,6 +50,7 @@ impl<'arena> Parser<'arena> {
       None => {}
     }
 
+    self.register_block_id(&meta)?;
     let first_token = lines.current_token().unwrap();
 
     if lines.is_block_macro() {
diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index 3d70efd..eb6c862 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
@@ -114,7 +114,7 @@ impl<'arena> Parser<'arena> {
       id = self.string(&id[1..]);
     }
 
-    if self.ctx.anchor_ids.borrow().contains(&id) {
+    if self.is_id_taken(&id) {
       return self.sequence_sectid(&id, separator);
     }
 
@@ -130,12 +130,16 @@ impl<'arena> Parser<'arena> {
         sequenced.push(c);
       }
       sequenced.push_str(&i.to_string());
-      if !self.ctx.anchor_ids.borrow().contains(&sequenced) {
+      if !self.is_id_taken(&sequenced) {
         return sequenced;
       }
       i += 1;
     }
   }
+
+  fn is_id_taken(&self, id: &BumpString<'arena>) -> bool {
+    self.ctx.anchor_ids.borrow().contains(id) || self.document.anchors.borrow().contains_key(id)
+  }
 }
 
 lazy_static! {
-- 
2.43.0


From d200a017cc1da0a84877a8d7ecbdb6b5b8ad2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 065/112] fix: report every invalid cross reference in order
 and accept ids of other files

---
 parser/src/parse_context.rs           |  4 ++--
 parser/src/tasks/diagnose_document.rs | 19 +++++++++----------
 parser/src/tasks/parse_inlines/mod.rs |  6 +++++-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 05f40da..3ca8869 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -13,7 +13,7 @@ pub struct ParseContext<'arena> {
   pub custom_line_comment: Option<SmallVec<[u8; 3]>>,
   pub anchor_ids: Rc<RefCell<HashSet<BumpString<'arena>>>>,
   /// xrefs are only used for diagnosing errors
-  pub xrefs: Rc<RefCell<HashMap<BumpString<'arena>, SourceLocation>>>,
+  pub xrefs: Rc<RefCell<Vec<(BumpString<'arena>, SourceLocation)>>>,
   pub can_nest_blocks: bool,
   pub saw_toc_macro: bool,
   pub bibliography_ctx: BiblioContext,
@@ -96,7 +96,7 @@ impl<'arena> ParseContext<'arena> {
       callouts: Rc::new(RefCell::new(bvec![in bump])),
       custom_line_comment: None,
       anchor_ids: Rc::new(RefCell::new(HashSet::new())),
-      xrefs: Rc::new(RefCell::new(HashMap::new())),
+      xrefs: Rc::new(RefCell::new(Vec::new())),
       saw_toc_macro: false,
       bibliography_ctx: BiblioContext::None,
       table_cell_ctx: TableCellContext::None,
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..68f6e42 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -12,7 +12,7 @@ impl Parser<'_> {
       return Ok(());
     }
     for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
+      let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
@@ -25,7 +25,7 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      if idx.is_some_and(|idx| idx != anchor.source_idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -41,11 +41,10 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  /// the id in the target, with the source it must be found in if it names one
+  fn target_data<'a>(&self, target: &'a str) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
-    } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, "__self__"))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -53,16 +52,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((Some(0), "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 0e01623..ce8baae 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -914,7 +914,11 @@ impl<'arena> Parser<'arena> {
       ref_id.drain(..1);
       ref_loc.start += 1;
     }
-    self.ctx.xrefs.borrow_mut().insert(ref_id, ref_loc);
+    let mut xrefs = self.ctx.xrefs.borrow_mut();
+    // NB: reparsing implicit table cell causes false dupes
+    if !xrefs.iter().any(|(id, loc)| *loc == ref_loc && *id == ref_id) {
+      xrefs.push((ref_id, ref_loc));
+    }
   }
 
   fn parse_uri_scheme_macro(
-- 
2.43.0


From 60ac7d0d33ca5d288a4c5be16ebf0144cf2080fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 066/112] fix: show the own text of a cross reference

---
 eval/src/eval.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index cec55fb..83c0512 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -527,22 +527,15 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       backend.enter_xref(target, linktext.is_some(), *kind);
       if ctx.resolving_xref.replace(true) {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
-      } else if let Some(text) = anchor
-        .map(|anchor| {
-          anchor
-            .reftext
-            .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
-        })
+      } else if let Some(text) = linktext
+        .as_ref()
+        .filter(|text| !text.is_empty())
+        .or(anchor.map(|anchor| anchor.reftext.as_ref().unwrap_or(&anchor.title)))
         .filter(|text| !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
         backend.exit_xref_text(is_biblio);
-      } else if let Some(text) = linktext {
-        backend.enter_xref_text(is_biblio);
-        text.iter().for_each(|node| eval_inline(node, ctx, backend));
-        backend.exit_xref_text(is_biblio);
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-- 
2.43.0


From 5219576dff1258996c15c2fa9089fd2ac3542c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 067/112] fix: do not resolve references in referenced titles
 endlessly

---
 eval/src/eval.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 83c0512..dad803c 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -525,13 +525,15 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
-        backend.visit_missing_xref(target, *kind, ctx.doc.title());
-      } else if let Some(text) = linktext
-        .as_ref()
-        .filter(|text| !text.is_empty())
-        .or(anchor.map(|anchor| anchor.reftext.as_ref().unwrap_or(&anchor.title)))
-        .filter(|text| !text.is_empty())
+      let nested = ctx.resolving_xref.replace(true);
+      let own_text = linktext.as_ref().filter(|text| !text.is_empty());
+      if let Some(text) = own_text {
+        backend.enter_xref_text(false);
+        text.iter().for_each(|node| eval_inline(node, ctx, backend));
+        backend.exit_xref_text(false);
+      } else if let Some(text) = anchor
+        .map(|anchor| anchor.reftext.as_ref().unwrap_or(&anchor.title))
+        .filter(|text| !nested && !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
@@ -539,7 +541,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(nested);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From 7aabe7ec674bf15dd7d18d82c817123ea816dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 068/112] fix: report section ids that are already in use

---
 parser/src/tasks/parse_book_part.rs | 23 +++++++++++++----------
 parser/src/tasks/parse_section.rs   | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index cded5c1..4ca24b3 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -40,16 +40,19 @@ impl<'arena> Parser<'arena> {
         .iter()
         .find_map(|a| a.named.get("reftext"))
         .cloned();
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
-          is_biblio: false,
-        },
-      );
+      let explicit = meta.attrs.iter().find_map(|a| a.id.as_ref());
+      let anchor = Anchor {
+        reftext,
+        title: heading.clone(),
+        source_loc: explicit.map(|id| id.loc),
+        source_idx: self.lexer.source_idx(),
+        is_biblio: false,
+      };
+      if let Some(explicit) = explicit {
+        self.insert_anchor(explicit, anchor)?;
+      } else {
+        self.document.anchors.borrow_mut().insert(id.clone(), anchor);
+      }
     }
 
     let mut title = PartTitle { meta, text: heading, id };
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 90455ef..ce630a8 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -107,16 +107,19 @@ impl<'arena> Parser<'arena> {
         .iter()
         .find_map(|a| a.named.get("reftext"))
         .cloned();
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
-          is_biblio: false,
-        },
-      );
+      let explicit = meta.attrs.iter().find_map(|a| a.id.as_ref());
+      let anchor = Anchor {
+        reftext,
+        title: heading.clone(),
+        source_loc: explicit.map(|id| id.loc),
+        source_idx: self.lexer.source_idx(),
+        is_biblio: false,
+      };
+      if let Some(explicit) = explicit {
+        self.insert_anchor(explicit, anchor)?;
+      } else {
+        self.document.anchors.borrow_mut().insert(id.clone(), anchor);
+      }
     }
 
     if meta.attrs.str_positional_at(0) == Some("bibliography") {
-- 
2.43.0


From 6c0fdd4a8307ae21a876cddbfaa8bbd834784455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 069/112] fix: register the ids of all formatted text, also at
 the end of a line

---
 parser/src/tasks/parse_inlines/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index ce8baae..8ffc27f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -982,11 +982,10 @@ impl<'arena> Parser<'arena> {
       had_inline_attrs = true;
     }
     acc.push_node(node, loc);
-    push_newline_if_needed(acc, lines);
     self.ctx.inline_ctx = InlineCtx::None;
     if had_inline_attrs
       && let Some(InlineNode {
-        content: Span(SpanKind::Text, Some(attrs), nodes),
+        content: Span(_, Some(attrs), nodes),
         ..
       }) = acc.inlines.last()
       && let Some(id) = &attrs.id
@@ -1002,6 +1001,7 @@ impl<'arena> Parser<'arena> {
         },
       )?;
     }
+    push_newline_if_needed(acc, lines);
     Ok(())
   }
 
-- 
2.43.0


From 727c2ee0c51249b312b49f7fb8daaef12edf0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 070/112] fix: keep section numbers across appendices and
 tables of contents

---
 backend-html5s/src/html5s.rs            |  1 +
 backend/src/html/backend.rs             | 78 ++++++++++++++++---------
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 3 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d470783..acf955b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -145,6 +145,7 @@ impl Backend for Html5s {
       self.start_buffering();
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..041a48a 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -15,6 +15,10 @@ use crate::{
 pub struct BackendState {
   pub section_nums: [u16; 5],
   pub section_num_levels: isize,
+  /// numbers to return to when the open appendices end
+  pub appendix_outer_nums: Vec<[u16; 5]>,
+  /// numbers to return to when the table of contents ends
+  pub toc_outer_nums: OuterNums,
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
@@ -26,6 +30,15 @@ pub struct BackendState {
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
 }
 
+#[derive(Debug, Default)]
+pub struct OuterNums {
+  section_nums: [u16; 5],
+  appendix_caption_num: u8,
+  appendix_outer_nums: Vec<[u16; 5]>,
+  in_appendix: bool,
+  book_part_num: usize,
+}
+
 pub trait HtmlBackend: HtmlBuf {
   fn state(&self) -> &BackendState;
   fn state_mut(&mut self) -> &mut BackendState;
@@ -183,11 +196,42 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
+  fn on_toc_enter(&mut self) {
+    let state = self.state_mut();
+    state.toc_outer_nums = OuterNums {
+      section_nums: std::mem::take(&mut state.section_nums),
+      appendix_caption_num: std::mem::take(&mut state.appendix_caption_num),
+      appendix_outer_nums: std::mem::take(&mut state.appendix_outer_nums),
+      in_appendix: state.ephemeral.remove(&EphemeralState::InAppendix),
+      book_part_num: std::mem::take(&mut state.book_part_num),
+    };
+  }
+
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
-    state.section_nums = [0; 5];
-    state.appendix_caption_num = 0;
-    state.book_part_num = 0;
+    let outer = std::mem::take(&mut state.toc_outer_nums);
+    state.section_nums = outer.section_nums;
+    state.appendix_caption_num = outer.appendix_caption_num;
+    state.appendix_outer_nums = outer.appendix_outer_nums;
+    state.book_part_num = outer.book_part_num;
+    if outer.in_appendix {
+      state.ephemeral.insert(EphemeralState::InAppendix);
+    }
+  }
+
+  fn enter_appendix(&mut self) {
+    let state = self.state_mut();
+    state.appendix_outer_nums.push(state.section_nums);
+    state.section_nums = [state.appendix_caption_num as u16, 0, 0, 0, 0];
+    state.ephemeral.insert(EphemeralState::InAppendix);
+  }
+
+  fn exit_appendix(&mut self) {
+    let state = self.state_mut();
+    state.section_nums = state.appendix_outer_nums.pop().unwrap_or_default();
+    if state.appendix_outer_nums.is_empty() {
+      state.ephemeral.remove(&EphemeralState::InAppendix);
+    }
   }
 
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
@@ -666,11 +710,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_appendix();
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -681,24 +721,14 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_appendix();
     }
     self.push_str("</li>");
   }
 
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.enter_appendix(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
@@ -711,13 +741,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.exit_appendix(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 420ca30..27f0fb6 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -156,6 +156,7 @@ impl Backend for AsciidoctorHtml {
       self.push_str("</div>"); // close preamble section body
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-- 
2.43.0


From 4e0c355d1c249a462fd31e25fa264cc52275ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 071/112] fix: leave special sections unnumbered unless all are
 to be numbered

---
 backend/src/html/backend.rs | 44 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 041a48a..93a9de4 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -19,6 +19,8 @@ pub struct BackendState {
   pub appendix_outer_nums: Vec<[u16; 5]>,
   /// numbers to return to when the table of contents ends
   pub toc_outer_nums: OuterNums,
+  /// for each open section, whether the sections in it are left unnumbered
+  pub unnumbered_sects: Vec<bool>,
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
@@ -36,6 +38,7 @@ pub struct OuterNums {
   appendix_caption_num: u8,
   appendix_outer_nums: Vec<[u16; 5]>,
   in_appendix: bool,
+  unnumbered_sects: Vec<bool>,
   book_part_num: usize,
 }
 
@@ -203,6 +206,7 @@ pub trait HtmlBackend: HtmlBuf {
       appendix_caption_num: std::mem::take(&mut state.appendix_caption_num),
       appendix_outer_nums: std::mem::take(&mut state.appendix_outer_nums),
       in_appendix: state.ephemeral.remove(&EphemeralState::InAppendix),
+      unnumbered_sects: std::mem::take(&mut state.unnumbered_sects),
       book_part_num: std::mem::take(&mut state.book_part_num),
     };
   }
@@ -213,6 +217,7 @@ pub trait HtmlBackend: HtmlBuf {
     state.section_nums = outer.section_nums;
     state.appendix_caption_num = outer.appendix_caption_num;
     state.appendix_outer_nums = outer.appendix_outer_nums;
+    state.unnumbered_sects = outer.unnumbered_sects;
     state.book_part_num = outer.book_part_num;
     if outer.in_appendix {
       state.ephemeral.insert(EphemeralState::InAppendix);
@@ -550,28 +555,32 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn should_number_section(&self, level: u8, special_sect: Option<SpecialSection>) -> bool {
-    let Some(sectnums) = self.doc_meta().get("sectnums") else {
-      return false;
-    };
     if self.section_num_levels() < level as isize {
       return false;
     }
-    match sectnums {
-      AttrValue::String(val) if val == "all" => true,
-      AttrValue::Bool(true) => {
-        if let Some(special_sect) = special_sect {
-          self
-            .doc_meta()
-            .get_doctype()
-            .supports_special_section(special_sect)
-        } else {
-          true
-        }
+    match self.doc_meta().get("sectnums") {
+      Some(AttrValue::String(val)) if val == "all" => true,
+      Some(AttrValue::Bool(true)) => {
+        special_sect.is_none() && self.state().unnumbered_sects.last() != Some(&true)
       }
       _ => false,
     }
   }
 
+  // special sections are only numbered on demand, and then what they contain is too
+  fn enter_numbering_scope(&mut self, special_sect: Option<SpecialSection>) {
+    let unnumbered = match special_sect {
+      None => self.state().unnumbered_sects.last() == Some(&true),
+      Some(SpecialSection::Appendix) => false,
+      Some(_) => self.doc_meta().str("sectnums") != Some("all"),
+    };
+    self.state_mut().unnumbered_sects.push(unnumbered);
+  }
+
+  fn exit_numbering_scope(&mut self) {
+    self.state_mut().unnumbered_sects.pop();
+  }
+
   fn push_part_prefix(&mut self) {
     if self.doc_meta().is_true("partnums") {
       let book_part_num = self.book_part_num_mut();
@@ -717,9 +726,11 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       self.push_section_heading_prefix(node.level, node.special_sect);
     }
+    self.enter_numbering_scope(node.special_sect);
   }
 
   fn exit_toc_node(&mut self, node: &TocNode) {
+    self.exit_numbering_scope();
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.exit_appendix();
     }
@@ -727,7 +738,9 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn enter_section_state(&mut self, section: &Section) {
-    match section.meta.attrs.special_sect() {
+    let special_sect = section.meta.attrs.special_sect();
+    self.enter_numbering_scope(special_sect);
+    match special_sect {
       Some(SpecialSection::Appendix) => self.enter_appendix(),
       Some(SpecialSection::Bibliography) => {
         self
@@ -740,6 +753,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn exit_section_state(&mut self, section: &Section) {
+    self.exit_numbering_scope();
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => self.exit_appendix(),
       Some(SpecialSection::Bibliography) => {
-- 
2.43.0


From 3977a92f499663350c834aa2742da0accd306e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 072/112] fix: number the entries of the table of contents like
 the sections

---
 backend-html5s/src/html5s.rs            |  2 +-
 backend/src/html/backend.rs             | 40 ++++++++++++-
 backend/src/html/mod.rs                 |  1 +
 backend/src/html/toc_switches.rs        | 78 +++++++++++++++++++++++++
 dr-html-backend/src/asciidoctor_html.rs |  2 +-
 5 files changed, 118 insertions(+), 5 deletions(-)
 create mode 100644 backend/src/html/toc_switches.rs

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index acf955b..0d0bb8f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -38,7 +38,7 @@ impl Backend for Html5s {
   fn enter_document(&mut self, document: &Document) {
     self.doc_meta = document.meta.clone();
     utils::set_backend_attrs::<Self>(&mut self.doc_meta);
-    self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    self.prepare_numbering(document);
 
     if !self.standalone() {
       return;
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 93a9de4..d74707e 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -7,6 +7,7 @@ use asciidork_core::{DocType, JobAttr, Path, SafeMode, file, iff, regx};
 use ast::{AttrValue, ReadAttr, SpecialSection, prelude::*};
 
 use crate::{
+  html::toc_switches::{self, NumberingSwitches},
   html::{HtmlBuf, OpenTag},
   utils,
 };
@@ -21,6 +22,11 @@ pub struct BackendState {
   pub toc_outer_nums: OuterNums,
   /// for each open section, whether the sections in it are left unnumbered
   pub unnumbered_sects: Vec<bool>,
+  pub numbering_switches: Vec<NumberingSwitches>,
+  /// the number of sections passed in the table of contents
+  pub toc_passed: usize,
+  /// the switches of the section listed in the table of contents
+  pub toc_switches: Option<NumberingSwitches>,
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
@@ -199,8 +205,16 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
+  fn prepare_numbering(&mut self, document: &Document) {
+    self.state_mut().section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    if document.toc.is_some() {
+      self.state_mut().numbering_switches = toc_switches::collect(document);
+    }
+  }
+
   fn on_toc_enter(&mut self) {
     let state = self.state_mut();
+    state.toc_passed = 0;
     state.toc_outer_nums = OuterNums {
       section_nums: std::mem::take(&mut state.section_nums),
       appendix_caption_num: std::mem::take(&mut state.appendix_caption_num),
@@ -214,6 +228,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
     let outer = std::mem::take(&mut state.toc_outer_nums);
+    state.toc_switches = None;
     state.section_nums = outer.section_nums;
     state.appendix_caption_num = outer.appendix_caption_num;
     state.appendix_outer_nums = outer.appendix_outer_nums;
@@ -555,10 +570,12 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn should_number_section(&self, level: u8, special_sect: Option<SpecialSection>) -> bool {
-    if self.section_num_levels() < level as isize {
+    let in_toc = &self.state().toc_switches;
+    let levels = in_toc.as_ref().map_or(self.section_num_levels(), |switches| switches.levels);
+    if levels < level as isize {
       return false;
     }
-    match self.doc_meta().get("sectnums") {
+    match self.sectnums() {
       Some(AttrValue::String(val)) if val == "all" => true,
       Some(AttrValue::Bool(true)) => {
         special_sect.is_none() && self.state().unnumbered_sects.last() != Some(&true)
@@ -567,12 +584,19 @@ pub trait HtmlBackend: HtmlBuf {
     }
   }
 
+  fn sectnums(&self) -> Option<&AttrValue> {
+    match &self.state().toc_switches {
+      Some(switches) => switches.sectnums.as_ref(),
+      None => self.doc_meta().get("sectnums"),
+    }
+  }
+
   // special sections are only numbered on demand, and then what they contain is too
   fn enter_numbering_scope(&mut self, special_sect: Option<SpecialSection>) {
     let unnumbered = match special_sect {
       None => self.state().unnumbered_sects.last() == Some(&true),
       Some(SpecialSection::Appendix) => false,
-      Some(_) => self.doc_meta().str("sectnums") != Some("all"),
+      Some(_) => !matches!(self.sectnums(), Some(AttrValue::String(val)) if val == "all"),
     };
     self.state_mut().unnumbered_sects.push(unnumbered);
   }
@@ -713,6 +737,16 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn enter_toc_node(&mut self, node: &TocNode) {
+    let state = self.state_mut();
+    let upcoming = state.numbering_switches.iter().skip(state.toc_passed);
+    let is_node = |s: &NumberingSwitches| match &node.id {
+      Some(id) => s.id.as_deref() == Some(id.as_str()),
+      None => s.id.is_none() && s.level == node.level,
+    };
+    if let Some((idx, switches)) = upcoming.enumerate().find(|(_, s)| is_node(s)) {
+      state.toc_switches = Some(switches.clone());
+      state.toc_passed += idx + 1;
+    }
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
       self.push_str(id);
diff --git a/backend/src/html/mod.rs b/backend/src/html/mod.rs
index d02feaa..3be08dc 100644
--- a/backend/src/html/mod.rs
+++ b/backend/src/html/mod.rs
@@ -3,6 +3,7 @@ pub mod htmlbuf;
 pub mod list;
 pub mod open_tag;
 pub mod table;
+pub mod toc_switches;
 pub mod util;
 pub mod video;
 
diff --git a/backend/src/html/toc_switches.rs b/backend/src/html/toc_switches.rs
new file mode 100644
index 0000000..fbabc7e
--- /dev/null
+++ b/backend/src/html/toc_switches.rs
@@ -0,0 +1,78 @@
+use ast::{AttrValue, ReadAttr, prelude::*};
+
+/// the attributes that decide whether a section is numbered, where it is written
+#[derive(Debug, Clone)]
+pub struct NumberingSwitches {
+  pub id: Option<String>,
+  pub level: u8,
+  pub sectnums: Option<AttrValue>,
+  pub levels: isize,
+}
+
+/// the switches in force at each section of the document, in order, for
+/// a table of contents that comes before the attribute entries in the body
+pub fn collect(document: &Document) -> Vec<NumberingSwitches> {
+  let mut collector = Collector {
+    meta: document.meta.clone(),
+    found: Vec::new(),
+  };
+  match &document.content {
+    DocContent::Blocks(blocks) => collector.blocks(blocks),
+    DocContent::Sections(sectioned) => {
+      collector.blocks(sectioned.preamble.as_deref().unwrap_or(&[]));
+      collector.sections(&sectioned.sections);
+    }
+    DocContent::Parts(book) => {
+      collector.blocks(book.preamble.as_deref().unwrap_or(&[]));
+      collector.sections(&book.opening_special_sects);
+      for part in &book.parts {
+        collector.push(0, part.title.id.as_deref());
+        collector.blocks(part.intro.as_deref().unwrap_or(&[]));
+        collector.sections(&part.sections);
+      }
+      collector.sections(&book.closing_special_sects);
+    }
+  }
+  collector.found
+}
+
+struct Collector {
+  meta: DocumentMeta,
+  found: Vec<NumberingSwitches>,
+}
+
+impl Collector {
+  fn push(&mut self, level: u8, id: Option<&str>) {
+    self.found.push(NumberingSwitches {
+      id: id.map(String::from),
+      level,
+      sectnums: self.meta.get("sectnums").cloned(),
+      levels: self.meta.isize("sectnumlevels").unwrap_or(3),
+    });
+  }
+
+  fn sections(&mut self, sections: &[Section]) {
+    sections.iter().for_each(|section| self.section(section));
+  }
+
+  fn section(&mut self, section: &Section) {
+    self.push(section.level, section.id.as_deref());
+    self.blocks(&section.blocks);
+  }
+
+  fn blocks(&mut self, blocks: &[Block]) {
+    for block in blocks {
+      match &block.content {
+        BlockContent::Section(section) => self.section(section),
+        BlockContent::Compound(blocks) => self.blocks(blocks),
+        BlockContent::List { items, .. } => {
+          items.iter().for_each(|item| self.blocks(&item.blocks));
+        }
+        BlockContent::DocumentAttribute(name, value) => {
+          _ = self.meta.insert_doc_attr(name, value.clone());
+        }
+        _ => {}
+      }
+    }
+  }
+}
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 27f0fb6..e41c6b1 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -41,7 +41,7 @@ impl Backend for AsciidoctorHtml {
 
     self.doc_meta = document.meta.clone();
     set_backend_attrs::<Self>(&mut self.doc_meta);
-    self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    self.prepare_numbering(document);
     if document.meta.is_true("hardbreaks-option") {
       self.default_newlines = Newlines::JoinWithBreak
     }
-- 
2.43.0


From 17502de93f63d9389d7e647974daaad93e2639d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 073/112] fix: list special sections written as level 0 like
 the other sections

---
 backend/src/html/backend.rs       | 8 +++++---
 parser/src/tasks/parse_section.rs | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index d74707e..41abbcb 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -737,11 +737,13 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn enter_toc_node(&mut self, node: &TocNode) {
+    // special sections might be written as level 0
+    let level = if node.special_sect.is_some() { node.level.max(1) } else { node.level };
     let state = self.state_mut();
     let upcoming = state.numbering_switches.iter().skip(state.toc_passed);
     let is_node = |s: &NumberingSwitches| match &node.id {
       Some(id) => s.id.as_deref() == Some(id.as_str()),
-      None => s.id.is_none() && s.level == node.level,
+      None => s.id.is_none() && s.level == level,
     };
     if let Some((idx, switches)) = upcoming.enumerate().find(|(_, s)| is_node(s)) {
       state.toc_switches = Some(switches.clone());
@@ -755,10 +757,10 @@ pub trait HtmlBackend: HtmlBuf {
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.enter_appendix();
       self.push_appendix_caption();
-    } else if node.level == 0 {
+    } else if level == 0 {
       self.push_part_prefix();
     } else {
-      self.push_section_heading_prefix(node.level, node.special_sect);
+      self.push_section_heading_prefix(level, node.special_sect);
     }
     self.enter_numbering_scope(node.special_sect);
   }
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index ce630a8..3c1d69c 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -186,7 +186,11 @@ impl<'arena> Parser<'arena> {
       children: BumpVec::new_in(self.bump),
     };
     let mut nodes: &mut BumpVec<'_, TocNode<'_>> = toc.nodes.as_mut();
-    while nodes.last().is_some_and(|last| last.level < authored_level) {
+    // NB: there are no chapters in a special section that is written as level 0
+    let encloses = |last: &TocNode| {
+      last.level < authored_level && (last.special_sect.is_none() || authored_level > 1)
+    };
+    while nodes.last().is_some_and(encloses) {
       nodes = nodes.last_mut().unwrap().children.as_mut();
     }
     nodes.push(node);
-- 
2.43.0


From 44d63a65942e30d68ba6bd22fea53db760fbaee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 074/112] fix: report a preamble table of contents in a book
 without preamble

---
 parser/src/tasks/diagnose_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 68f6e42..eefaea2 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -75,7 +75,9 @@ impl Parser<'_> {
         )?;
       }
       Some(TocPosition::Preamble) => match &self.document.content {
-        DocContent::Blocks(_) | DocContent::Sections(Sectioned { preamble: None, .. }) => {
+        DocContent::Blocks(_)
+        | DocContent::Sections(Sectioned { preamble: None, .. })
+        | DocContent::Parts(MultiPartBook { preamble: None, .. }) => {
           self.err_doc_attr(
             "toc",
             "Table of Contents set to `preamble` but no preamble found",
-- 
2.43.0


From 261d25361cac86267665e1d874d17a89b5f18c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 075/112] fix: place table cells by grid column, and repeated
 cells one by one

---
 parser/src/tasks/table/context.rs         | 22 ++++--
 parser/src/tasks/table/parse_psv_table.rs | 85 +++++++++++------------
 2 files changed, 56 insertions(+), 51 deletions(-)

diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index a32afeb..bbcf0c8 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -1,4 +1,5 @@
 use std::collections::HashSet;
+use std::ops::Range;
 
 use super::DataFormat;
 use crate::internal::*;
@@ -20,7 +21,7 @@ pub struct TableContext<'arena> {
   pub effective_row_idx: usize,
   pub dsv_last_consumed: DsvLastConsumed,
   pub table: Table<'arena>,
-  pub spilled_cells: BumpVec<'arena, Cell<'arena>>,
+  pub spilled_cells: BumpVec<'arena, SpilledCell<'arena>>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -49,6 +50,13 @@ pub struct ParseCellData<'arena> {
   pub col_spec: Option<ColSpec>,
 }
 
+#[derive(Debug, Clone)]
+pub struct SpilledCell<'arena> {
+  pub cell_tokens: Line<'arena>,
+  pub cell_spec: CellSpec,
+  pub loc: Range<u32>,
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum DsvLastConsumed {
   Delimiter,
@@ -74,12 +82,12 @@ impl TableContext<'_> {
     }
   }
 
-  pub fn row_phantom_cells(&self) -> usize {
-    self
-      .phantom_cells
-      .iter()
-      .filter(|(row, _)| *row == self.effective_row_idx)
-      .count()
+  /// first column of the current row, from `col`, not covered by a cell above
+  pub fn next_free_col(&self, mut col: usize) -> usize {
+    while self.phantom_cells.contains(&(self.effective_row_idx, col)) {
+      col += 1;
+    }
+    col
   }
 
   pub fn effective_row_cols(&self) -> usize {
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 11def37..82910b0 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -8,16 +8,12 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
     let mut cells = bvec![in self.bump];
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, cells.len());
-          cells.push(cell.clone());
-        }
-      }
-      ctx.add_phantom_cells(&cell, cells.len());
+    let mut col_index = 0;
+    while let Some(cell) = self.next_psv_table_cell(tokens, ctx, col_index)? {
+      ctx.add_phantom_cells(&cell, col_index);
+      col_index += cell.col_span as usize;
       cells.push(cell);
-      if !ctx.counting_cols {
+      if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
         break;
       }
     }
@@ -25,7 +21,7 @@ impl<'arena> Parser<'arena> {
       tokens.consume_current();
     }
 
-    ctx.num_cols = cells.iter().map(|c| c.col_span as usize).sum();
+    ctx.num_cols = col_index;
     self.finish_implicit_header_row(cells, ctx)
   }
 
@@ -35,38 +31,20 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<Option<Row<'arena>>> {
     let mut cells = bvec![in self.bump];
-    std::mem::swap(&mut cells, &mut ctx.spilled_cells);
-    let mut num_effective_cells = ctx.row_phantom_cells();
-
-    // check if we need to distrubute spilled cells from last row
-    let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
-    ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if ctx.num_cols > 0 && cells.len() == remaining_room {
-      ctx.effective_row_idx += 1;
-      return Ok(Some(Row::new(cells)));
-    }
-    num_effective_cells += cells.len();
-
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, num_effective_cells);
-          num_effective_cells += cell.col_span as usize;
-          if num_effective_cells < ctx.num_cols {
-            cells.push(cell.clone());
-          } else {
-            ctx.spilled_cells.push(cell.clone());
-          }
-        }
-      }
-      ctx.add_phantom_cells(&cell, num_effective_cells);
-      num_effective_cells += cell.col_span as usize;
+    let mut col_index = ctx.next_free_col(0);
+    let covered = col_index > 0 && col_index >= ctx.num_cols;
+    while !covered {
+      let Some(cell) = self.next_psv_table_cell(tokens, ctx, col_index)? else {
+        break;
+      };
+      ctx.add_phantom_cells(&cell, col_index);
+      col_index = ctx.next_free_col(col_index + cell.col_span as usize);
       cells.push(cell);
-      if num_effective_cells >= ctx.num_cols {
+      if col_index >= ctx.num_cols {
         break;
       }
     }
-    if cells.is_empty() {
+    if cells.is_empty() && !covered {
       Ok(None)
     } else {
       ctx.effective_row_idx += 1;
@@ -74,12 +52,31 @@ impl<'arena> Parser<'arena> {
     }
   }
 
-  fn parse_psv_table_cell(
+  /// copies of a duplicated cell which are yet to be placed come first
+  fn next_psv_table_cell(
     &mut self,
     tokens: &mut TableTokens<'arena>,
     ctx: &mut TableContext<'arena>,
     col_index: usize,
-  ) -> Result<Option<(Cell<'arena>, u8)>> {
+  ) -> Result<Option<Cell<'arena>>> {
+    if ctx.spilled_cells.is_empty() {
+      let Some(data) = self.parse_psv_table_cell(tokens, ctx)? else {
+        return Ok(None);
+      };
+      for _ in 0..data.cell_spec.duplication.unwrap_or(1).max(1) {
+        ctx.spilled_cells.push(data.clone());
+      }
+    }
+    let data = ctx.spilled_cells.pop().unwrap();
+    let cell = self.finish_cell(data.cell_spec, data.cell_tokens, col_index, ctx, data.loc)?;
+    Ok(cell.map(|(cell, _)| cell))
+  }
+
+  fn parse_psv_table_cell(
+    &mut self,
+    tokens: &mut TableTokens<'arena>,
+    ctx: &mut TableContext<'arena>,
+  ) -> Result<Option<SpilledCell<'arena>>> {
     if tokens.is_empty() {
       return Ok(None);
     }
@@ -119,16 +116,16 @@ impl<'arena> Parser<'arena> {
     loop {
       if self.starts_psv_cell(tokens, ctx.cell_separator) {
         if drop_invalid_cell {
-          return self.parse_psv_table_cell(tokens, ctx, col_index);
+          return self.parse_psv_table_cell(tokens, ctx);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return Ok(Some(SpilledCell { cell_tokens, cell_spec: spec, loc: start..end }));
         }
       }
       let Some(token) = tokens.consume_splitting(ctx.embeddable_cell_separator) else {
         if drop_invalid_cell {
-          return self.parse_psv_table_cell(tokens, ctx, col_index);
+          return self.parse_psv_table_cell(tokens, ctx);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return Ok(Some(SpilledCell { cell_tokens, cell_spec: spec, loc: start..end }));
         }
       };
 
-- 
2.43.0


From 18084018fcc11fca2bb29005f164f02757fb3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 076/112] fix: recognize cell specifiers in front of any
 separator

---
 parser/src/tasks/table/parse_table_spec.rs | 42 ++++++++--------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 6a106b8..5e11fb8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -147,38 +147,24 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 {
+    if cursor == 0 && !style_within_word {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
-
-    let mut buf = [0; 4];
-    let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
-
-    match (style_within_word, cursor_token.lexeme.as_bytes()) {
-      (false, bytes) if bytes == sep_bytes => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
-        let joined = tokens.nth(cursor as usize).unwrap();
-        Some(CellStart {
-          spec,
-          drop_tokens: cursor,
-          drop_bytes: 1 + sep_bytes.len() as u32,
-          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
-        })
-      }
-      _ => None,
+    let style_len = style_within_word as usize;
+    if !cursor_token.lexeme.get(style_len..)?.starts_with(sep) {
+      return None;
     }
+
+    // the separator might be the beginning of a longer word
+    let spec_end = style_len + sep.len_utf8();
+    let whole_token = cursor_token.len() == spec_end;
+    Some(CellStart {
+      spec,
+      drop_tokens: if whole_token { cursor + 1 } else { cursor },
+      drop_bytes: if whole_token { 0 } else { spec_end as u32 },
+      resuming: cursor_token.loc.start + spec_end as u32,
+    })
   }
 }
 
-- 
2.43.0


From 3e99367d264e7e38ff428d3237804a061737d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 077/112] fix: split tab-separated values at every tab

---
 parser/src/tasks/table/mod.rs             | 5 +++--
 parser/src/tasks/table/parse_dsv_table.rs | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..3051994 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -101,7 +101,7 @@ impl<'arena> TableTokens<'arena> {
     let Some(sep) = embeddable_separator else {
       return self.consume_current();
     };
-    if !self.current().kind(TokenKind::Word) {
+    if !self.current().kind(TokenKind::Word) && !self.current().kind(TokenKind::Whitespace) {
       return self.consume_current();
     }
 
@@ -112,10 +112,11 @@ impl<'arena> TableTokens<'arena> {
       debug_assert!(!before.is_empty());
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
+      let kind = token.kind;
       let before_len = before.len() as u32;
       self.drop_leading_bytes(before_len);
       Some(Token {
-        kind: TokenKind::Word,
+        kind,
         lexeme,
         loc: SourceLocation::new(loc.start, loc.start + before_len, loc.include_depth),
         attr_replacement: false,
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index b8ce8cc..4ff2237 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -51,6 +51,15 @@ impl<'arena> Parser<'arena> {
 
     let mut trimmed_newline = false;
     while tokens.current().is_whitespaceish() {
+      // the separator might be a tab
+      let lexeme = &tokens.current().unwrap().lexeme;
+      if let Some(len) = lexeme.find(ctx.cell_separator) {
+        if len > 0 {
+          tokens.drop_leading_bytes(len as u32);
+          start += len as u32;
+        }
+        break;
+      }
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
       if trimmed.kind(TokenKind::Newline) {
-- 
2.43.0


From 9779dbe1a44c0783372186ed0973416ec817eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 078/112] fix: take separators and quotes in attribute values
 for text

---
 parser/src/tasks/table/mod.rs             | 13 +++++++++----
 parser/src/tasks/table/parse_csv_table.rs |  2 ++
 parser/src/tasks/table/parse_dsv_table.rs |  4 ++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 3051994..93f5248 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -106,10 +106,15 @@ impl<'arena> TableTokens<'arena> {
     }
 
     let token = self.current().unwrap();
-    if token.lexeme.contains(sep) {
-      let (before, _) = token.lexeme.split_once(sep).unwrap();
-      // NB: caller must check that lexeme doesn't START with sep
-      debug_assert!(!before.is_empty());
+    // a separator from an attribute value is text, so is the one in front, which
+    // the caller did not take for a separator, because it's quoted
+    let split = match token.lexeme.find(sep) {
+      Some(0) => sep.len_utf8(),
+      Some(index) => index,
+      None => token.lexeme.len(),
+    };
+    if split < token.lexeme.len() && !token.attr_replacement {
+      let before = &token.lexeme[..split];
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
       let kind = token.kind;
diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index fe539d1..b93bea1 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -48,6 +48,8 @@ impl<'arena> Parser<'arena> {
 
       end = token.loc.end;
       match token.kind {
+        // quotes from an attribute value are text
+        DoubleQuote if token.attr_replacement => cell_tokens.push(token),
         DoubleQuote if quote.is_none() => {
           self.err_at(
             "Double quote not allowed here, entire field must be quoted",
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index 4ff2237..ca694f3 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -137,6 +137,10 @@ impl<'arena> Parser<'arena> {
     }
 
     ctx.dsv_last_consumed = DsvLastConsumed::Other;
+    if tokens.current().is_some_and(|token| token.attr_replacement) {
+      return false;
+    }
+
     if let Some(tokenkind) = ctx.cell_separator_tokenkind {
       return if tokens.current().kind(tokenkind) {
         ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
-- 
2.43.0


From d7a2185cecc4569dd16034744903cd50d650b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 079/112] fix: find implicit table headers by their lines, and
 escaped separators

---
 parser/src/tasks/table/parse_dsv_table.rs | 18 +++++++++++++-----
 parser/src/tasks/table/parse_psv_table.rs |  2 +-
 parser/src/tasks/table/parse_table.rs     |  6 +++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index ca694f3..107b679 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -49,7 +49,7 @@ impl<'arena> Parser<'arena> {
     }
     let mut start = tokens.current().unwrap().loc.start;
 
-    let mut trimmed_newline = false;
+    let mut trimmed_newlines = 0;
     while tokens.current().is_whitespaceish() {
       // the separator might be a tab
       let lexeme = &tokens.current().unwrap().lexeme;
@@ -63,13 +63,16 @@ impl<'arena> Parser<'arena> {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
       if trimmed.kind(TokenKind::Newline) {
-        trimmed_newline = true;
+        trimmed_newlines += 1;
         ctx.counting_cols = false;
       }
     }
 
     // delimiter followed by newline is an empty cell
-    if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newline {
+    if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newlines > 0 {
+      if ctx.header_row.is_unknown() && trimmed_newlines > 1 {
+        ctx.header_row = HeaderRow::FoundImplicit;
+      }
       let spec = CellSpec::default();
       return self
         .finish_cell(spec, Line::empty(self.bump), col_index, ctx, start..start)
@@ -115,9 +118,14 @@ impl<'arena> Parser<'arena> {
         ctx.counting_cols = false
       }
       end = token.loc.end;
-      if !token.kind(TokenKind::Backslash) {
+      // NB: allow for escaping a delimiter, but other backslashes should pass thru
+      let escaped = token.kind(TokenKind::Backslash)
+        && tokens
+          .current()
+          .is_some_and(|next| next.lexeme.starts_with(ctx.cell_separator) && !next.attr_replacement);
+      if !escaped {
         cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      } else if let Some(next) = tokens.consume_splitting(ctx.embeddable_cell_separator) {
         end = next.loc.end;
         cell_tokens.push(next);
       }
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 82910b0..7018f21 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -140,7 +140,7 @@ impl<'arena> Parser<'arena> {
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
       if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      } else if let Some(next) = tokens.consume_splitting(ctx.embeddable_cell_separator) {
         end = next.loc.end;
         cell_tokens.push(next);
       }
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 7a08af2..5850fd6 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -186,13 +186,13 @@ impl<'arena> Parser<'arena> {
 
     let mut trimmed_implicit_header = false;
     if ctx.header_row.is_unknown() && matches!(ctx.format, DataFormat::Prefix(_)) {
-      let mut ws = SmallVec::<[TokenKind; 12]>::new();
+      let mut newlines = 0;
       while cell_tokens.last().is_whitespaceish() {
         let token = cell_tokens.pop().unwrap();
         loc.end = token.loc.start;
-        ws.push(token.kind);
+        newlines += token.kind(Newline) as usize;
       }
-      if ws.len() > 1 && ws[ws.len() - 2..] == [Newline, Newline] {
+      if newlines > 1 {
         trimmed_implicit_header = true;
         ctx.header_row = HeaderRow::FoundImplicit;
       } else if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
-- 
2.43.0


From 784ec3cb4eb3e54def17703f09d87d9805be9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 080/112] fix: split delimited values at separators inside of
 other tokens

---
 parser/src/tasks/table/mod.rs             | 16 ++++++++++------
 parser/src/tasks/table/parse_dsv_table.rs | 15 +++++++--------
 parser/src/tasks/table/parse_table.rs     |  6 +++---
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 93f5248..0ff6af5 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -35,7 +35,7 @@ impl DataFormat {
 
   pub const fn embeddable_separator(&self) -> Option<char> {
     match self.separator() {
-      ':' | ';' | '|' | ',' => None,
+      '|' => None,
       sep => Some(sep),
     }
   }
@@ -94,18 +94,19 @@ impl<'arena> TableTokens<'arena> {
   }
 
   pub fn drop_leading_bytes(&mut self, n: u32) {
+    let is_space = self.current().kind(TokenKind::Whitespace);
     self.0.drop_leading_bytes(n);
+    if is_space && let Some(rest) = self.current_mut() {
+      rest.kind = TokenKind::Whitespace;
+    }
   }
 
   pub fn consume_splitting(&mut self, embeddable_separator: Option<char>) -> Option<Token<'arena>> {
     let Some(sep) = embeddable_separator else {
       return self.consume_current();
     };
-    if !self.current().kind(TokenKind::Word) && !self.current().kind(TokenKind::Whitespace) {
-      return self.consume_current();
-    }
 
-    let token = self.current().unwrap();
+    let token = self.current()?;
     // a separator from an attribute value is text, so is the one in front, which
     // the caller did not take for a separator, because it's quoted
     let split = match token.lexeme.find(sep) {
@@ -117,7 +118,10 @@ impl<'arena> TableTokens<'arena> {
       let before = &token.lexeme[..split];
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
-      let kind = token.kind;
+      let kind = match token.kind {
+        TokenKind::Whitespace => TokenKind::Whitespace,
+        _ => TokenKind::Word,
+      };
       let before_len = before.len() as u32;
       self.drop_leading_bytes(before_len);
       Some(Token {
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index 107b679..d5bc646 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -149,16 +149,15 @@ impl<'arena> Parser<'arena> {
       return false;
     }
 
-    if let Some(tokenkind) = ctx.cell_separator_tokenkind {
-      return if tokens.current().kind(tokenkind) {
-        ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
-        tokens.consume_current();
-        true
-      } else {
-        false
-      };
+    if let Some(tokenkind) = ctx.cell_separator_tokenkind
+      && tokens.current().kind(tokenkind)
+    {
+      ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
+      tokens.consume_current();
+      return true;
     }
 
+    // the separator might be the beginning of a longer token
     let sep_len = ctx.cell_separator.len_utf8();
     let token = tokens.current_mut().unwrap();
     if token.lexeme.starts_with(ctx.cell_separator) {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 5850fd6..7905691 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -192,11 +192,11 @@ impl<'arena> Parser<'arena> {
         loc.end = token.loc.start;
         newlines += token.kind(Newline) as usize;
       }
-      if newlines > 1 {
+      if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
+        ctx.header_row = HeaderRow::FoundNone
+      } else if newlines > 1 {
         trimmed_implicit_header = true;
         ctx.header_row = HeaderRow::FoundImplicit;
-      } else if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
-        ctx.header_row = HeaderRow::FoundNone
       }
     } else {
       while cell_tokens.last().is_whitespaceish() {
-- 
2.43.0


From fc37bb62e714cc503f9241e6e9b003933796f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 081/112] fix: count captions across table cells

---
 backend-html5s/src/html5s.rs            | 9 ++++++++-
 dr-html-backend/src/asciidoctor_html.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 0d0bb8f..d2e9597 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -712,11 +712,18 @@ impl Backend for Html5s {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index e41c6b1..b77ddbe 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -782,12 +782,19 @@ impl Backend for AsciidoctorHtml {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From caf9e7a135d39b21a18439195e25a2d1a423723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 082/112] fix: close the element a titled verse block opens
 (html5s)

---
 backend-html5s/src/html5s.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d2e9597..27bb2ba 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -420,8 +420,11 @@ impl Backend for Html5s {
   }
 
   fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
-    self.open_element("div", &["verse-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["verse-block"], &block.meta.attrs);
+    if block.has_title() {
+      self.render_buffered_block_title(block, true);
+    }
     if has_attribution {
       self.push_str(r#"<blockquote class="verse">"#);
     }
-- 
2.43.0


From 5a742f9d3984f3801a17b7ec662866007ee175b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 083/112] fix: footnotes and anchors of a title count where the
 title stands, not in the toc or references

---
 eval/src/eval.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index dad803c..ac45949 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -12,12 +12,15 @@ pub fn eval<B: Backend>(document: &Document, mut backend: B) -> Result<B::Output
 struct Ctx<'a, 'b> {
   doc: &'a Document<'b>,
   resolving_xref: RefCell<bool>,
+  /// set while text which belongs elsewhere in the document is shown again
+  repeating: RefCell<bool>,
 }
 
 pub fn visit<B: Backend>(doc: &Document, backend: &mut B) {
   let ctx = Ctx {
     doc,
     resolving_xref: RefCell::new(false),
+    repeating: RefCell::new(false),
   };
   let render_docinfo = !ctx.doc.meta.embedded;
   backend.enter_document(ctx.doc);
@@ -496,6 +499,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     }
     CurlyQuote(kind) => backend.visit_curly_quote(*kind),
     MultiCharWhitespace(ws) => backend.visit_multichar_whitespace(ws),
+    // the note belongs to the place where the text is defined
+    Macro(Footnote { .. }) if *ctx.repeating.borrow() => {}
     Macro(Footnote { id, text }) => {
       backend.enter_footnote(id.as_ref());
       if let Some(text) = text {
@@ -536,7 +541,9 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         .filter(|text| !nested && !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
+        let repeating = ctx.repeating.replace(true);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
+        ctx.repeating.replace(repeating);
         backend.exit_xref_text(is_biblio);
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
@@ -571,6 +578,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         linktext.is_some(),
       );
     }
+    InlineAnchor(_) if *ctx.repeating.borrow() => {}
     InlineAnchor(id) => backend.visit_inline_anchor(id),
     BiblioAnchor(id) => {
       backend.visit_biblio_anchor(
@@ -695,7 +703,9 @@ fn eval_toc_level(nodes: &[TocNode], ctx: &Ctx, backend: &mut impl Backend) {
     nodes.iter().for_each(|node| {
       backend.enter_toc_node(node);
       backend.enter_toc_content();
+      let repeating = ctx.repeating.replace(true);
       node.title.iter().for_each(|n| eval_inline(n, ctx, backend));
+      ctx.repeating.replace(repeating);
       backend.exit_toc_content();
       eval_toc_level(&node.children, ctx, backend);
       backend.exit_toc_node(node);
-- 
2.43.0


From 27eb375aafaca178600c081512952eea0140508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 084/112] fix: a reference to a footnote which is not defined
 yet does not define it

---
 backend-html5s/src/html5s.rs            | 5 +++++
 dr-html-backend/src/asciidoctor_html.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 27bb2ba..b8a908d 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1449,6 +1449,11 @@ impl Backend for Html5s {
     }
     let num = self.state.footnotes.borrow().len() + 1;
     let footnote = self.swap_take_buffer();
+    if let Some(id) = id.filter(|_| footnote.is_empty()) {
+      self.push_str(r#"<a class="footnote-ref broken" title="Unresolved note reference.">["#);
+      self.push([id, "]</a>"]);
+      return;
+    }
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index b77ddbe..f152ea3 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1488,6 +1488,11 @@ impl Backend for AsciidoctorHtml {
     }
     let num = self.state.footnotes.borrow().len() + 1;
     let footnote = self.swap_take_buffer();
+    if let Some(id) = id.filter(|_| footnote.is_empty()) {
+      self.push_str(r#"<sup class="footnoteref red" title="Unresolved footnote reference.">["#);
+      self.push([id, "]</sup>"]);
+      return;
+    }
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From 557fa5fac484704c27253eddfdd367f353229205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 085/112] fix: a footnote or self-linked image inside a
 buffered title swapped the output buffers

---
 backend-html5s/src/html5s.rs            | 13 +++++++------
 dr-html-backend/src/asciidoctor_html.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index b8a908d..faa75c5 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -9,6 +9,8 @@ pub struct Html5s {
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
+  /// html before each footnote being rendered, innermost last
+  footnote_html: Vec<String>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -1115,10 +1117,9 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let outer = mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&mem::replace(&mut self.html, outer));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1438,17 +1439,17 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    self.footnote_html.push(mem::take(&mut self.html));
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.footnote_html.pop().unwrap_or_default();
+    let footnote = mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     if let Some(id) = id.filter(|_| footnote.is_empty()) {
       self.push_str(r#"<a class="footnote-ref broken" title="Unresolved note reference.">["#);
       self.push([id, "]</a>"]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index f152ea3..1c0d326 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -14,6 +14,8 @@ use utils::set_backend_attrs;
 pub struct AsciidoctorHtml {
   html: String,
   alt_html: String,
+  /// html before each footnote being rendered, innermost last
+  footnote_html: Vec<String>,
   doc_meta: DocumentMeta,
   default_newlines: Newlines,
   newlines: Newlines,
@@ -1193,10 +1195,9 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let outer = mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&mem::replace(&mut self.html, outer));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1476,18 +1477,18 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    self.footnote_html.push(mem::take(&mut self.html));
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.footnote_html.pop().unwrap_or_default();
+    let footnote = mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     if let Some(id) = id.filter(|_| footnote.is_empty()) {
       self.push_str(r#"<sup class="footnoteref red" title="Unresolved footnote reference.">["#);
       self.push([id, "]</sup>"]);
-- 
2.43.0


From 6c9c054cf654260d235dcaec026d4ee685880ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 086/112] fix: find cell specifiers in front of separators
 embedded in words (moved out of parse_table_spec.rs)

---
 parser/src/tasks/table/mod.rs              | 43 ++++++++++++++++++++++
 parser/src/tasks/table/parse_psv_table.rs  | 31 ++++++++++++++--
 parser/src/tasks/table/parse_table_spec.rs | 42 ++++++++++++++-------
 3 files changed, 99 insertions(+), 17 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 0ff6af5..4ded38a 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -135,6 +135,49 @@ impl<'arena> TableTokens<'arena> {
     }
   }
 
+  /// A cell spec in front of a separator which is part of a longer word, e.g. `2+ex` before
+  /// `xfoo` in `2+exxfoo`: its tokens, ending with the separator, and how much of ours they are
+  pub fn embedded_spec(&self, sep: char) -> Option<(Self, usize, u32)> {
+    const MAX_SPEC_TOKENS: usize = 10;
+    for n in 0..MAX_SPEC_TOKENS {
+      let token = self.nth(n)?;
+      let style_len = match token.lexeme.chars().next()? {
+        c if c == sep => 0,
+        'a' | 'd' | 'e' | 'h' | 'l' | 'm' | 's' | 'v'
+          if token.lexeme[1..].starts_with(sep) && token.kind(TokenKind::Word) =>
+        {
+          1
+        }
+        _ if token.kind(TokenKind::Word) && token.len() > 1 => return None,
+        _ if token.kind(TokenKind::Whitespace) || token.kind(TokenKind::Newline) => return None,
+        _ => continue,
+      };
+      let spec_len = style_len + sep.len_utf8();
+      if token.attr_replacement || spec_len == sep.len_utf8() && (n == 0 || token.len() == spec_len) {
+        return None;
+      }
+      let bump = self.0.bump_arena();
+      let mut tokens = Deq::with_capacity(n + 2, bump);
+      for i in 0..n {
+        tokens.push(self.nth(i)?.clone());
+      }
+      for range in [0..style_len, style_len..spec_len] {
+        if !range.is_empty() {
+          let start = token.loc.start + range.start as u32;
+          let end = token.loc.start + range.end as u32;
+          tokens.push(Token {
+            kind: TokenKind::Word,
+            lexeme: BumpString::from_str_in(&token.lexeme[range], bump),
+            loc: SourceLocation::new(start, end, token.loc.include_depth),
+            attr_replacement: false,
+          });
+        }
+      }
+      return Some((Self::new(tokens), n, spec_len as u32));
+    }
+    None
+  }
+
   pub fn is_empty(&self) -> bool {
     self.0.is_empty()
   }
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 7018f21..98a4821 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -72,6 +72,31 @@ impl<'arena> Parser<'arena> {
     Ok(cell.map(|(cell, _)| cell))
   }
 
+  fn at_psv_cell_start(&self, tokens: &mut TableTokens<'arena>, sep: char) -> bool {
+    self.starts_psv_cell(tokens, sep)
+      || tokens
+        .embedded_spec(sep)
+        .is_some_and(|(mut spec_tokens, ..)| self.starts_psv_cell(&mut spec_tokens, sep))
+  }
+
+  fn consume_psv_cell_start(
+    &self,
+    tokens: &mut TableTokens<'arena>,
+    sep: char,
+  ) -> Option<(CellSpec, u32)> {
+    if let Some((mut spec_tokens, num_tokens, rest)) = tokens.embedded_spec(sep)
+      && let Some(start) = self.consume_cell_start(&mut spec_tokens, sep)
+    {
+      tokens.discard(num_tokens);
+      match tokens.current().is_some_and(|token| token.len() > rest as usize) {
+        true => tokens.drop_leading_bytes(rest),
+        false => tokens.discard(1),
+      }
+      return Some(start);
+    }
+    self.consume_cell_start(tokens, sep)
+  }
+
   fn parse_psv_table_cell(
     &mut self,
     tokens: &mut TableTokens<'arena>,
@@ -82,7 +107,7 @@ impl<'arena> Parser<'arena> {
     }
 
     let spec_loc = tokens.current().unwrap().loc;
-    let (spec, mut start) = match self.consume_cell_start(tokens, ctx.format.separator()) {
+    let (spec, mut start) = match self.consume_psv_cell_start(tokens, ctx.format.separator()) {
       Some((spec, start)) => (spec, start),
       None => {
         let sep = ctx.format.separator();
@@ -114,7 +139,7 @@ impl<'arena> Parser<'arena> {
     }
 
     loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator) {
+      if self.at_psv_cell_start(tokens, ctx.cell_separator) {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx);
         } else {
@@ -138,7 +163,7 @@ impl<'arena> Parser<'arena> {
 
       end = token.loc.end;
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
-      if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
+      if !token.kind(TokenKind::Backslash) || !self.at_psv_cell_start(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
       } else if let Some(next) = tokens.consume_splitting(ctx.embeddable_cell_separator) {
         end = next.loc.end;
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 5e11fb8..6a106b8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -147,24 +147,38 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 && !style_within_word {
+    if cursor == 0 {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
-    let style_len = style_within_word as usize;
-    if !cursor_token.lexeme.get(style_len..)?.starts_with(sep) {
-      return None;
-    }
 
-    // the separator might be the beginning of a longer word
-    let spec_end = style_len + sep.len_utf8();
-    let whole_token = cursor_token.len() == spec_end;
-    Some(CellStart {
-      spec,
-      drop_tokens: if whole_token { cursor + 1 } else { cursor },
-      drop_bytes: if whole_token { 0 } else { spec_end as u32 },
-      resuming: cursor_token.loc.start + spec_end as u32,
-    })
+    let mut buf = [0; 4];
+    let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
+
+    match (style_within_word, cursor_token.lexeme.as_bytes()) {
+      (false, bytes) if bytes == sep_bytes => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
+        let joined = tokens.nth(cursor as usize).unwrap();
+        Some(CellStart {
+          spec,
+          drop_tokens: cursor,
+          drop_bytes: 1 + sep_bytes.len() as u32,
+          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
+        })
+      }
+      _ => None,
+    }
   }
 }
 
-- 
2.43.0


From f4a13f1af00ca9acfdcd11d4727f7dcbbfae01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 087/112] fix: keep backslashes that escape nothing, and encode
 what they escape

---
 parser/src/parse_context.rs                   |  3 +
 parser/src/tasks/parse_attr_list.rs           |  5 +-
 .../src/tasks/parse_inlines/inline_utils.rs   | 11 +++
 parser/src/tasks/parse_inlines/mod.rs         | 75 ++++++++++++++++---
 4 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 3ca8869..1561584 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -29,6 +29,7 @@ pub struct ParseContext<'arena> {
   pub attr_defs: BumpVec<'arena, AttrDef>,
   pub replacing_attr: bool,
   pub attr_pass_subs: Option<Substitutions>,
+  pub in_attr_value: bool,
   callouts: Rc<RefCell<BumpVec<'arena, Callout>>>,
 }
 
@@ -111,6 +112,7 @@ impl<'arena> ParseContext<'arena> {
       in_markdown_blockquote: false,
       replacing_attr: false,
       attr_pass_subs: None,
+      in_attr_value: false,
     }
   }
 
@@ -140,6 +142,7 @@ impl<'arena> ParseContext<'arena> {
       in_markdown_blockquote: false,
       replacing_attr: false,
       attr_pass_subs: None,
+      in_attr_value: false,
     }
   }
 
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index cd7f142..65a12a4 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -369,7 +369,10 @@ impl<'arena> Parser<'arena> {
       Ok(Some(InlineNodes::new(self.bump)))
     } else {
       let line = Line::new(tokens);
-      Ok(Some(self.parse_inlines(&mut line.into_lines())?))
+      let restore = std::mem::replace(&mut self.ctx.in_attr_value, true);
+      let nodes = self.parse_inlines(&mut line.into_lines());
+      self.ctx.in_attr_value = restore;
+      Ok(Some(nodes?))
     }
   }
 
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..1c1b5ea 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -175,6 +175,17 @@ impl<'arena> Accum<'arena> {
   }
 
   #[inline(always)]
+  /// `<...>` token, with its angle brackets as special characters
+  pub fn push_special_char_enclosed(&mut self, token: &Token) {
+    let start = token.loc.clamp_start().incr_end();
+    let end = token.loc.clamp_end().decr_start();
+    self.push_node(Inline::SpecialChar(SpecialCharKind::LessThan), start);
+    self
+      .text
+      .push_str(&token.lexeme[1..token.lexeme.len() - 1]);
+    self.push_node(Inline::SpecialChar(SpecialCharKind::GreaterThan), end);
+  }
+
   pub fn push_text_token(&mut self, token: &Token) {
     if self.text.loc.end == token.loc.start {
       self.text.push_token(token);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 8ffc27f..9519d62 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -433,11 +433,7 @@ impl<'arena> Parser<'arena> {
           }
 
           CalloutNumber if subs.special_chars() => {
-            let start = token.loc.clamp_start().incr_end();
-            let end = token.loc.clamp_end().decr_start();
-            acc.push_node(SpecialChar(SpecialCharKind::LessThan), start);
-            acc.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
-            acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
+            acc.push_special_char_enclosed(&token);
           }
 
           LessThan if line.continues_xref_shorthand() => {
@@ -834,16 +830,34 @@ impl<'arena> Parser<'arena> {
                 self.parse_escaped_index_term_shorthand(&token, line, lines, &mut acc)?;
                 break;
               }
+              _ if !self.escapes_pattern(&line, lines, stop_tokens) => {
+                acc.push_text_token(&token);
+                while let Some(backslash) = line.consume_if(Backslash) {
+                  acc.push_text_token(&backslash);
+                }
+              }
               _ => {
                 acc.push_node(Discarded, token.loc);
                 while let Some(backslash) = line.consume_if(Backslash) {
                   acc.push_node(Discarded, backslash.loc);
                 }
-                if !subs.special_chars() || !line.current_token().is_some_and(|t| t.kind(Ampersand))
-                {
-                  // pushing the next token as text prevents recognizing the pattern
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                // pushing the next token as text prevents recognizing the pattern
+                let next_token = line.consume_current().unwrap();
+                match next_token.kind {
+                  CalloutNumber if subs.special_chars() => {
+                    acc.push_special_char_enclosed(&next_token);
+                  }
+                  Ampersand | LessThan
+                    if subs.special_chars() && !line.current_is(Dashes) =>
+                  {
+                    let kind = iff!(
+                      next_token.kind(Ampersand),
+                      SpecialCharKind::Ampersand,
+                      SpecialCharKind::LessThan
+                    );
+                    acc.push_node(SpecialChar(kind), next_token.loc);
+                  }
+                  _ => acc.push_text_token(&next_token),
                 }
               }
             }
@@ -890,6 +904,47 @@ impl<'arena> Parser<'arena> {
     self.finish_inlines(acc, inline_attrs)
   }
 
+  /// whether the pattern after the backslash(es) would have been replaced
+  fn escapes_pattern(
+    &self,
+    line: &Line<'arena>,
+    lines: &ContiguousLines<'arena>,
+    stop_tokens: &[TokenSpec],
+  ) -> bool {
+    let subs = self.ctx.subs;
+    let Some(idx) = line.iter().position(|t| !t.kind(Backslash)) else {
+      return false;
+    };
+    let token = line.nth_token(idx).unwrap();
+    let next_kind = line.nth_token(idx + 1).map(|t| t.kind);
+    if stop_tokens.iter().any(|spec| token.satisfies(*spec)) {
+      return true;
+    }
+    match token.kind {
+      Directive => true,
+      DoubleQuote | SingleQuote | CloseBracket if self.ctx.in_attr_value => true,
+      CalloutNumber => subs.callouts(),
+      AttrRef | OpenBrace => subs.attr_refs(),
+      Ampersand | Entity => subs.char_replacement(),
+      Star | Underscore | Backtick | Hash | Caret | Tilde => subs.inline_formatting(),
+      DoubleQuote => subs.inline_formatting() && next_kind == Some(Backtick),
+      SingleQuote => subs.inline_formatting() || subs.char_replacement(),
+      Plus | MacroName | UriScheme | Email | MaybeEmail | CloseBracket => subs.macros(),
+      OpenBracket => subs.macros() || subs.inline_formatting(),
+      Dashes => subs.char_replacement() && (token.len() > 1 || next_kind == Some(GreaterThan)),
+      EqualSigns => subs.char_replacement() && next_kind == Some(GreaterThan),
+      Dots => subs.char_replacement() && token.is_len(3),
+      OpenParens if token.len() > 1 => subs.macros(),
+      OpenParens => subs.char_replacement() && next_kind == Some(Word),
+      LessThan => match next_kind {
+        Some(LessThan | UriScheme) => subs.macros(),
+        Some(Dashes | EqualSigns) => subs.char_replacement(),
+        _ => false,
+      },
+      _ => false,
+    }
+  }
+
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       let text = self.lexer.str_from_loc(unused_attrs.loc);
-- 
2.43.0


From 6ff25772aed6796f9261ab724cf1608f0fb1433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 088/112] fix: callout marks next to escaped ones, of lists in
 cells, and numbered 255

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 parser/src/line.rs                      | 5 +++++
 parser/src/parse_context.rs             | 9 ++++-----
 parser/src/tasks/parse_inlines/mod.rs   | 4 ++--
 parser/src/tasks/parse_list.rs          | 2 +-
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 1c0d326..6bdc760 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -708,7 +708,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 1bf6c59..fe82dbe 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -463,8 +463,13 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_valid_callout_nums(&self) -> bool {
+    let mut escaped = false;
     for token in self.iter() {
       if token.kind(Whitespace) || token.kind(CalloutNumber) {
+        escaped = false;
+        continue;
+      } else if token.kind(Backslash) && !escaped {
+        escaped = true;
         continue;
       } else {
         return false;
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 1561584..c52fe1b 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -165,8 +165,8 @@ impl<'arena> ParseContext<'arena> {
       } else {
         callouts.push(Callout {
           list_idx: last.list_idx,
-          callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          callout_idx: last.callout_idx.saturating_add(1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
@@ -177,9 +177,8 @@ impl<'arena> ParseContext<'arena> {
   pub fn advance_callout_list(&mut self, bump: &'arena Bump) {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
-      self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
-      ));
+      // NB: shared with the document of an asciidoc table cell
+      *self.callouts.borrow_mut() = bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)];
     }
   }
 
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 9519d62..4918eeb 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -408,7 +408,7 @@ impl<'arena> Parser<'arena> {
 
           Hash
             if subs.callouts()
-              && line.current_is(Whitespace)
+              && line.starts_with_seq(&[Kind(Whitespace), Kind(CalloutNumber)])
               && line.continues_valid_callout_nums() =>
           {
             push_callout_tuck(token, &mut line, &mut acc);
@@ -417,7 +417,7 @@ impl<'arena> Parser<'arena> {
           ForwardSlashes
             if subs.callouts()
               && token.is_len(2)
-              && line.current_is(Whitespace)
+              && line.starts_with_seq(&[Kind(Whitespace), Kind(CalloutNumber)])
               && line.continues_valid_callout_nums() =>
           {
             push_callout_tuck(token, &mut line, &mut acc);
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 3ee0401..df7b88b 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -100,7 +100,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From 07790012d0380864da32c3cdc1f4556498647f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:58 +0000
Subject: [PATCH 089/112] fix: only guards directly before a callout mark are
 dropped, also at the start of a line

---
 parser/src/tasks/parse_inlines/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 4918eeb..6a1cb50 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -399,13 +399,26 @@ impl<'arena> Parser<'arena> {
           TermDelimiter
             if subs.callouts()
               && token.is_len(2)
-              && line.current_is(Whitespace)
+              && line.starts_with_seq(&[Kind(Whitespace), Kind(CalloutNumber)])
               && token.lexeme == ";;" // this is a happy accident
               && line.continues_valid_callout_nums() =>
           {
             push_callout_tuck(token, &mut line, &mut acc);
           }
 
+          // not lexed as a term delimiter at the start of a line
+          SemiColon
+            if subs.callouts()
+              && line.starts_with_seq(&[Kind(SemiColon), Kind(Whitespace), Kind(CalloutNumber)])
+              && line.iter().skip(1).all(|t| matches!(t.kind, Whitespace | CalloutNumber | Backslash)) =>
+          {
+            let mut guard = token;
+            let second = line.discard_assert(SemiColon);
+            guard.lexeme.push(';');
+            guard.loc.extend(second.loc);
+            push_callout_tuck(guard, &mut line, &mut acc);
+          }
+
           Hash
             if subs.callouts()
               && line.starts_with_seq(&[Kind(Whitespace), Kind(CalloutNumber)])
-- 
2.43.0


From 339627c5e9d86c99c550c01d33bb18eb43f537a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:58 +0000
Subject: [PATCH 090/112] fix: callout lists with titles, and callout lists not
 following a listing in html5s

---
 backend-html5s/src/html5s.rs            | 18 ++++++++++++++++--
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index faa75c5..7e25bc0 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -18,6 +18,7 @@ pub struct Html5s {
   newlines: Newlines,
   default_newlines: Newlines,
   section_level_stack: Vec<u8>,
+  callout_list_stack: Vec<&'static str>,
   state: BackendState,
 }
 
@@ -523,12 +524,25 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // the list is rendered inside the verbatim block directly preceding it
+    let mut close = "";
+    for (block_end, block_close) in
+      [("</pre></div>", "</div>"), ("</pre></figure>", "</figure>"), ("</pre></section>", "</section>")]
+    {
+      if self.html.ends_with(block_end) {
+        self.html.truncate(self.html.len() - block_close.len());
+        close = block_close;
+      }
+    }
+    self.callout_list_stack.push(close);
+    self.render_buffered_block_title(block, true);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    self.push_str("</ol>");
+    let close = self.callout_list_stack.pop().unwrap_or_default();
+    self.push_str(close);
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6bdc760..9f23525 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -556,6 +556,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
+    self.render_buffered_block_title(block);
     self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
   }
 
-- 
2.43.0


From b83c29600912e1453f44f2e71e5e8ef61988bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 091/112] fix: level 0 sections have no section number

---
 backend/src/html/backend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 41abbcb..5ae1c24 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -572,7 +572,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn should_number_section(&self, level: u8, special_sect: Option<SpecialSection>) -> bool {
     let in_toc = &self.state().toc_switches;
     let levels = in_toc.as_ref().map_or(self.section_num_levels(), |switches| switches.levels);
-    if levels < level as isize {
+    if level == 0 || levels < level as isize {
       return false;
     }
     match self.sectnums() {
-- 
2.43.0


From 422d360526c027902f8d27eacfb2b878071d802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 092/112] fix: negative indent of a menu macro without items

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 9f23525..12c1be5 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1321,7 +1321,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(items.next().unwrap());
     self.push_str("</b>");
 
-    let last_idx = items.len() - 1;
+    let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
-- 
2.43.0


From 4edb7720cbdfcda646021d5a23e727232a50e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 093/112] fix: titles of blocks which are not rendered end up
 in the next block's

---
 backend-html5s/src/html5s.rs |  9 ++++-----
 eval/src/eval.rs             | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7e25bc0..cafaa08 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -374,13 +374,12 @@ impl Backend for Html5s {
   }
 
   fn enter_quoted_paragraph(&mut self, block: &Block) {
-    self.open_element("div", &["quote-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
-    self.push_str("<blockquote><p>");
+    self.enter_quote_block(block, true);
+    self.push_str("<p>");
   }
 
-  fn exit_quoted_paragraph(&mut self, _block: &Block) {
-    self.push_str("</blockquote></div>");
+  fn exit_quoted_paragraph(&mut self, block: &Block) {
+    self.exit_quote_block(block, true);
   }
 
   fn enter_quote_block(&mut self, block: &Block, _has_attribution: bool) {
diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index ac45949..f5c39c5 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -154,7 +154,20 @@ fn eval_section(section: &Section, ctx: &Ctx, backend: &mut impl Backend) {
 }
 
 fn eval_block(block: &Block, ctx: &Ctx, backend: &mut impl Backend) {
-  if let Some(title) = &block.meta.title() {
+  // titles are buffered for their block, so those of blocks without one must not be visited
+  let untitled = matches!(
+    block.context,
+    Context::DocumentAttributeDecl
+      | Context::DiscreteHeading
+      | Context::ThematicBreak
+      | Context::PageBreak
+      | Context::TableOfContents
+      | Context::Section
+      | Context::Comment
+  );
+  if let Some(title) = &block.meta.title()
+    && !untitled
+  {
     backend.enter_meta_title(block);
     title.iter().for_each(|n| eval_inline(n, ctx, backend));
     backend.exit_meta_title(block);
-- 
2.43.0


From f31f4ec5059dc89745ace77fbf9afa9968e9897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 094/112] fix: strict mode raises problems of lines to be read
 again, attribute entries and several blocks in markdown quotes, discrete
 markdown headings

---
 parser/src/diagnostic.rs            | 12 ++++++++++-
 parser/src/parse_context.rs         |  2 ++
 parser/src/parser.rs                |  1 +
 parser/src/tasks/parse_block.rs     | 32 +++++++++++++++++++++++------
 parser/src/tasks/parse_doc_attrs.rs | 15 ++++++++------
 5 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 12abce6..795390c 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -153,13 +153,23 @@ impl Parser<'_> {
   }
 
   fn handle_err(&self, err: Diagnostic) -> Result<()> {
-    if self.strict {
+    // lines read before an attr def above them took effect will be read again
+    if self.strict && !self.ctx.attr_defs.iter().any(|def| def.pending) {
       Err(err)
     } else {
       self.errors.borrow_mut().push(err);
       Ok(())
     }
   }
+
+  pub(crate) fn raise_postponed(&self) -> Result<()> {
+    let mut errors = self.errors.borrow_mut();
+    if self.strict && !errors.is_empty() {
+      Err(errors.remove(0))
+    } else {
+      Ok(())
+    }
+  }
 }
 
 pub trait DiagnosticColor {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index c52fe1b..cf82883 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -41,6 +41,8 @@ pub struct AttrDef {
   pub value: AttrValue,
   pub has_lbrace: bool,
   pub in_header: bool,
+  /// read, but not taking effect yet, so what follows it is going to be read again
+  pub pending: bool,
   pub resume: ResumePoint,
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 645d7e2..7eb9cb0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -310,6 +310,7 @@ impl<'arena> Parser<'arena> {
     // so the backend can see them replayed in decl order
     self.document.meta.clear_doc_attrs();
     self.diagnose_document()?;
+    self.raise_postponed()?;
     Ok(self.into())
   }
 
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 154feb9..9484375 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -23,7 +23,7 @@ impl<'arena> Parser<'arena> {
     }
 
     match self.section_start_level(&lines, &meta) {
-      Some(_) if self.ctx.delimiter.is_some() => {}
+      Some(_) if self.ctx.delimiter.is_some() || self.ctx.in_markdown_blockquote => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
         self.restore_peeked(lines, meta);
@@ -107,6 +107,8 @@ impl<'arena> Parser<'arena> {
         // re-parse what adjoins the attr def, be it lines or only directives, to resolve it
         self.ctx.attr_defs.truncate(pos);
         self.resume_after(&def);
+        def.pending = false;
+        self.raise_postponed()?;
         self.ctx.attr_defs.push(def.clone());
         match self
           .document
@@ -199,7 +201,10 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    // as many tokens as hashes for a markdown style marker
+    while line.current_is(TokenKind::EqualSigns) || line.current_is(TokenKind::Hash) {
+      line.discard(1);
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
@@ -265,17 +270,32 @@ impl<'arena> Parser<'arena> {
       paras.push(current);
     }
 
-    self.ctx.in_markdown_blockquote = true;
+    let was_in_blockquote = std::mem::replace(&mut self.ctx.in_markdown_blockquote, true);
     assert!(self.peeked_lines.is_none());
     let mut blocks = BumpVec::new_in(self.bump);
-    for para in paras.into_iter() {
+    'quote: for mut para in paras.into_iter() {
+      // once the block around the quote has been closed, nothing more belongs to it
+      if let Some(mut rest) = self.peeked_lines.take() {
+        while let Some(line) = para.consume_current() {
+          rest.push(line);
+        }
+        self.restore_lines(rest);
+        continue;
+      }
       self.restore_lines(para);
-      if let Some(block) = self.parse_block()? {
+      // the lines of a "paragraph" may make up several blocks
+      while self.peeked_lines.is_some()
+        && let Some(block) = self.parse_block()?
+      {
         loc.extend_end(&block.loc);
         blocks.push(block);
+        if !self.ctx.in_markdown_blockquote {
+          // an attr entry ended the quote, the lines after it are read again
+          break 'quote;
+        }
       }
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.ctx.in_markdown_blockquote = was_in_blockquote && self.ctx.in_markdown_blockquote;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index a44bed1..465ff01 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -11,8 +11,8 @@ impl<'arena> Parser<'arena> {
     let limit = self.lexer.embedded_end().unwrap_or(u32::MAX);
     let byte_at = |pos: u32| if pos < limit { self.lexer.byte_at(pos, depth) } else { None };
 
-    // we need at least 4 bytes to have a valid attr def: `:a:\n`
-    if self.lexer.byte_at(start_loc + 3, depth).is_none() {
+    // we need at least 3 bytes to have a valid attr def: `:a:`
+    if self.lexer.byte_at(start_loc + 2, depth).is_none() {
       return Ok(());
     }
 
@@ -107,11 +107,11 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        match byte_at(pos) {
-          Some(b'\r') => pos += 2,
-          Some(_) => pos += 1,
-          None => break,
+        let newline_len = if byte_at(pos) == Some(b'\r') { 2 } else { 1 };
+        if byte_at(pos + newline_len).is_none() {
+          break;
         }
+        pos += newline_len;
 
         let line_start = pos;
         loop {
@@ -201,6 +201,7 @@ impl<'arena> Parser<'arena> {
       value: attr_value,
       has_lbrace,
       in_header,
+      pending: !in_header,
       resume: ResumePoint {
         lexer: self.lexer.mark(),
         ifdef_stack: self.ctx.ifdef_stack.iter().map(ToString::to_string).collect(),
@@ -232,6 +233,8 @@ impl<'arena> Parser<'arena> {
           .precedes_mark(&resume.lexer, &err.source_file, err.line_num)
     });
     self.lexer.rewind(&resume.lexer);
+    // what it has read of a markdown blockquote is going to be read again, too
+    self.ctx.in_markdown_blockquote = false;
     self.ctx.leveloffset = resume.leveloffset;
     self.ctx.ifdef_stack.clear();
     for name in &resume.ifdef_stack {
-- 
2.43.0


From 895437650606edb8f7fdbf1262108b4e61064db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 095/112] fix: panics on malformed ifeval operands and
 directives at the end of the input

---
 ast/src/source_location.rs                               | 2 +-
 parser/src/lexer/source_lexer.rs                         | 8 ++++----
 parser/src/tasks/directives/ifeval.rs                    | 9 +++++----
 parser/src/tasks/directives/includes/process_includes.rs | 4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index dfbc0b3..15e26ff 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -63,7 +63,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_start(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end, self.include_depth)
   }
 
   #[must_use]
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index e27c5b5..9f69e14 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -227,7 +227,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn line_of(&self, location: u32) -> BumpString<'arena> {
-    let location = location - self.offset;
+    let location = (location - self.offset).min(self.src.len() as u32);
     let mut start = location;
     let mut end = location;
 
@@ -255,8 +255,8 @@ impl<'arena> SourceLexer<'arena> {
     let location = location - self.offset;
     let mut line_number = 1;
     let mut offset: u32 = 0;
-    for idx in 0..location {
-      if self.src[idx as usize] == b'\n' {
+    for byte in self.src.iter().take(location as usize) {
+      if *byte == b'\n' {
         offset = 0;
         line_number += 1;
       } else {
@@ -339,7 +339,7 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && (self.remaining_len() > 4 || lexeme == b"endif" && self.remaining_len() == 4) =>
+          && (self.remaining_len() > 4 || lexeme != b"include" && self.remaining_len() == 4) =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 403aa73..667c85f 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,10 +58,11 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
-    {
-      Value::String(self.string(&expr[1..expr.len() - 1]))
+    let unquoted = ['\'', '"']
+      .iter()
+      .find_map(|quote| expr.strip_prefix(*quote)?.strip_suffix(*quote));
+    if let Some(unquoted) = unquoted {
+      Value::String(self.string(unquoted))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
       Value::String(self.string(" "))
     } else {
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 69fd662..20fffca 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -128,10 +128,10 @@ impl<'arena> Parser<'arena> {
         let mut msg = self.string("+++Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        let offset = directive.first_token.loc.start + msg.len() as u32;
         msg.push_str(directive.line_src.as_str());
         msg.push_str("+++\n");
-        self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
+        let loc = directive.first_token.loc;
+        self.lexer.set_tmp_buf(&msg, BufLoc::Repeat(loc));
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(error) => {
-- 
2.43.0


From f885ff80cb92e9149c6990a1380cfc8ebe12a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 096/112] fix: panics on malformed inline macros, index terms
 and attribute lists, the rest of a line taken for a new block

---
 parser/src/line.rs                            | 22 +++++++----
 parser/src/tasks/parse_attr_list.rs           |  7 ++++
 parser/src/tasks/parse_inlines/index_term.rs  | 12 ++++--
 .../src/tasks/parse_inlines/inline_preproc.rs |  7 +++-
 parser/src/tasks/parse_inlines/mod.rs         | 39 ++++++++++++-------
 5 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index fe82dbe..b9004bc 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -490,9 +490,13 @@ impl<'arena> Line<'arena> {
       return false;
     };
     if end_idx < open_idx {
-      false
-    } else {
-      !self.current_is(Colon) || prev.lexeme.as_str() == "xref:"
+      return false;
+    }
+    match prev.lexeme.as_str() {
+      // these macros have no target
+      "btn:" | "indexterm:" | "indexterm2:" => self.current_is(OpenBracket),
+      "xref:" => true,
+      _ => !self.current_is(Colon),
     }
   }
 
@@ -803,10 +807,8 @@ impl<'arena> Line<'arena> {
       {
         Some(ListMarker::Dash)
       }
-      Star if second.kind(Star) => {
-        let src = self.reassemble_src();
-        let captures = regx::REPEAT_STAR_LI_START.captures(&src)?;
-        Some(ListMarker::Star(captures.get(1).unwrap().len() as u8))
+      Star if second.kind(Star) && self.repeat_star_marker().is_some() => {
+        self.repeat_star_marker()
       }
       CalloutNumber if second.kind(Whitespace) && token.lexeme.as_bytes()[1] != b'!' => {
         Some(ListMarker::Callout(token.parse_callout_num()))
@@ -833,6 +835,12 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  fn repeat_star_marker(&self) -> Option<ListMarker> {
+    let src = self.reassemble_src();
+    let captures = regx::REPEAT_STAR_LI_START.captures(&src)?;
+    Some(ListMarker::Star(captures.get(1).unwrap().len() as u8))
+  }
+
   pub fn starts_list_item(&self) -> bool {
     self.list_marker().is_some()
   }
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 65a12a4..dcf4539 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -148,6 +148,13 @@ impl<'arena> Parser<'arena> {
       return Ok(attrs);
     }
 
+    // an opening bracket that is never closed doesn't enclose the end of the macro
+    if !line.nth_token(num_tokens).kind(CloseBracket)
+      && let Some(before_close) = line.index_of_seq(&[Not(Backslash), Kind(CloseBracket)])
+    {
+      num_tokens = before_close + 1;
+    }
+
     let mut tokens = Deq::with_capacity(line.len() - 1, self.bump);
     for _ in 0..num_tokens {
       tokens.push_non_attr(line.consume_current().unwrap());
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..a90821c 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -90,13 +90,13 @@ impl<'arena> Parser<'arena> {
     if end_len > 2 {
       let mut trailing_parens_loc = node_loc.clamp_end();
       trailing_parens_loc.end += (end_len - 2) as u32;
-      let trailing_parens = self.lexer.src_string_from_loc(trailing_parens_loc);
+      let trailing_parens = self.string(&")".repeat(end_len - 2));
       if let Some(InlineNode { content: Inline::Text(txt), loc }) = term.last_mut() {
-        txt.push_str(&trailing_parens.src);
+        txt.push_str(&trailing_parens);
         loc.extend(trailing_parens_loc);
       } else {
         term.push(InlineNode {
-          content: Inline::Text(trailing_parens.src),
+          content: Inline::Text(trailing_parens),
           loc: trailing_parens_loc,
         });
       }
@@ -179,7 +179,11 @@ impl<'arena> Parser<'arena> {
     parens.lexeme.pop();
     acc.push_node(Inline::Discarded, token.loc);
     acc.push_text_token(&single_paren);
-    let end_len = terminates(&line, lines).unwrap();
+    let Some(end_len) = terminates(&line, lines) else {
+      acc.push_text_token(&parens);
+      lines.restore_if_nonempty(line);
+      return Ok(());
+    };
     let (node, loc) = self.parse_index_term_shorthand(end_len, &parens, line, lines, acc)?;
     acc.push_node(node, loc);
     Ok(())
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index d1f3dac..95cd88e 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -66,7 +66,9 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
     }
     let extend = if start_token.kind == Plus { plus_count as u32 } else { 1 };
-    loc.end = passlines.last_loc().unwrap().end + extend;
+    // an empty macro has only its brackets left after the name and the subs
+    let content_end = passlines.last_loc().map_or(loc.end + 1, |last| last.end);
+    loc.end = content_end + extend;
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
     let nodes = self.parse_inlines(&mut passlines)?;
@@ -134,6 +136,9 @@ impl<'arena> Parser<'arena> {
         _ => return None,
       }
     }
+    if num_target_tokens == line.num_tokens() {
+      return None;
+    }
 
     let mut n = 1;
     let mut last = OpenBracket;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 6a1cb50..4b9651e 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -21,11 +21,11 @@ impl<'arena> Parser<'arena> {
     stop_tokens: &[TokenSpec],
   ) -> Result<InlineNodes<'arena>> {
     let inlines = BumpVec::new_in(self.bump).into();
-    if lines.is_empty() {
+    let Some(first_loc) = lines.iter().find_map(Line::first_loc) else {
       return Ok(inlines);
-    }
+    };
 
-    let span_loc = lines.first_loc().unwrap().clamp_start();
+    let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
@@ -180,7 +180,7 @@ impl<'arena> Parser<'arena> {
                 let note = if note.is_empty() { None } else { Some(note) };
                 if id.is_none() && note.is_none() {
                   let mut err_loc = macro_loc.incr_end();
-                  err_loc.start += 9;
+                  err_loc.start = token.loc.end;
                   self.err_at("Empty footnote content", err_loc)?;
                 }
                 acc.push_node(Macro(Footnote { id, text: note }), macro_loc);
@@ -336,7 +336,9 @@ impl<'arena> Parser<'arena> {
                   None
                 };
                 let attrs = self.parse_inline_macro_attr_list(&mut line)?;
-                let loc = SourceLocation::spanning(token.loc, attrs.loc);
+                // not spanning, replaced attrs have other locations
+                let mut loc = token.loc;
+                loc.extend(attrs.loc);
                 acc.push_node(
                   Macro(Plugin(Box::new(PluginMacro {
                     name,
@@ -574,7 +576,9 @@ impl<'arena> Parser<'arena> {
           OpenBracket
             if line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
-              && line.contains_seq(&[Kind(CloseBracket); 3]) =>
+              && line.first_nonescaped(CloseBracket).is_some_and(|(_, first)| {
+                line.index_of_seq(&[Kind(CloseBracket); 3]) == Some(first)
+              }) =>
           {
             let second_bracket = line.consume_current().unwrap();
             let third_bracket = line.consume_current().unwrap();
@@ -881,7 +885,7 @@ impl<'arena> Parser<'arena> {
             && self.ctx.inline_ctx != InlineCtx::LinkMacroAttrs =>
           {
             let mut loc = token.loc;
-            let line_end = line.last_loc().unwrap();
+            let line_end = line.last_loc().unwrap_or(token.loc);
             let target = line.consume_url(Some(&token), None, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
@@ -1077,8 +1081,20 @@ impl<'arena> Parser<'arena> {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
+    // the rest of a line starts nothing new
+    || (line.is_fully_unconsumed() && self.starts_something_new(line))
+
+    // special case: ending verbatim delimited block, non-matching delimiters
+    // within the verbatim block are rendered as is
+    || (
+      self.ctx.delimiter.is_some()
+      && self.ctx.delimiter == line.current_token().and_then(|t| t.to_delimiter())
+    )
+  }
+
+  fn starts_something_new(&self, line: &Line<'arena>) -> bool {
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
+    ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
@@ -1094,13 +1110,6 @@ impl<'arena> Parser<'arena> {
 
     // a list nested in a description
     || (self.ctx.parsing_simple_desc_def() && line.starts_list_item())
-
-    // special case: ending verbatim delimited block, non-matching delimiters
-    // within the verbatim block are rendered as is
-    || (
-      self.ctx.delimiter.is_some()
-      && self.ctx.delimiter == line.current_token().and_then(|t| t.to_delimiter())
-    )
   }
 
   pub(crate) fn starts_next_list_item(&self, line: &Line<'arena>) -> bool {
-- 
2.43.0


From 0f821f6928bbc582bfc4e104984fbf930c674f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 097/112] fix: panics on section lines with following blocks,
 [normal] on an open block

---
 ast/src/attr_list.rs              |  1 +
 parser/src/tasks/heading_level.rs | 19 +++++--------------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/ast/src/attr_list.rs b/ast/src/attr_list.rs
index 5598230..9669bb8 100644
--- a/ast/src/attr_list.rs
+++ b/ast/src/attr_list.rs
@@ -132,6 +132,7 @@ impl AttrData for AttrList<'_> {
     // https://docs.asciidoctor.org/asciidoc/latest/blocks/masquerading/#built-in-permutations
     use BlockContext::*;
     match (context, masquerade) {
+      (Open, Paragraph) => None,
       (Open | Paragraph, _) => Some(masquerade),
       (Listing, Literal) => Some(Literal),
       (Literal, Listing) => Some(Listing),
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index ef772ad..30fe4e3 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -17,21 +17,12 @@ impl<'arena> Parser<'arena> {
     lines: &ContiguousLines<'arena>,
     meta: &ChunkMeta<'arena>,
   ) -> Option<u8> {
-    for line in lines.iter() {
-      if line.is_block_attr_list() || line.is_chunk_title() || line.is_comment() {
-        continue;
-      } else if let Some(level) = self.line_heading_level(line) {
-        return match meta.attrs.has_str_positional("discrete")
-          || meta.attrs.has_str_positional("float")
-        {
-          true => None,
-          false => Some(level),
-        };
-      } else {
-        return None;
-      }
+    // the lines of the block metadata have been consumed already
+    let level = self.line_heading_level(lines.current()?)?;
+    match meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float") {
+      true => None,
+      false => Some(level),
     }
-    None
   }
 
   pub fn adjust_leveloffset(leveloffset: &mut i8, value: &AttrValue) {
-- 
2.43.0


From 71e6f4a98effe864cd21b00734ee8eb9621353c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 098/112] fix: newlines in table cells of a source with windows
 line ends

---
 parser/src/tasks/table/parse_table.rs | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 7905691..88a5c36 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -378,8 +378,9 @@ impl<'arena> Parser<'arena> {
       self.escape_directive(&line, &mut tokens);
       line.drain_into(&mut tokens);
       if !lines.is_empty() {
-        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-        end += 1;
+        let newline = self.newline_token(end, delim_loc.include_depth);
+        end = newline.loc.end;
+        tokens.push(newline);
       }
     }
     while let Some(next_line) = self.read_line()? {
@@ -387,8 +388,9 @@ impl<'arena> Parser<'arena> {
         continue;
       }
       if !tokens.is_empty() {
-        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-        end += 1;
+        let newline = self.newline_token(end, delim_loc.include_depth);
+        end = newline.loc.end;
+        tokens.push(newline);
       }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
@@ -406,6 +408,16 @@ impl<'arena> Parser<'arena> {
 }
 
 impl<'arena> Parser<'arena> {
+  /// as long as in the source, for the locations of what is parsed again in asciidoc cells
+  fn newline_token(&self, start: u32, depth: u16) -> Token<'arena> {
+    let newline = match self.lexer.byte_at(start, depth) {
+      Some(b'\r') => "\r\n",
+      _ => "\n",
+    };
+    let loc = SourceLocation::new(start, start + newline.len() as u32, depth);
+    Token::new(TokenKind::Newline, loc, self.string(newline))
+  }
+
   /// a directive still present in a line was refused: it must stay text when
   /// the contents of an asciidoc cell are parsed again
   fn escape_directive(&self, line: &Line<'arena>, tokens: &mut Deq<'arena, Token<'arena>>) {
@@ -420,15 +432,6 @@ impl<'arena> Parser<'arena> {
   }
 }
 
-fn newline_token(start: u32, depth: u16, bump: &Bump) -> Token<'_> {
-  Token {
-    kind: TokenKind::Newline,
-    lexeme: BumpString::from_str_in("\n", bump),
-    loc: SourceLocation::new(start, start + 1, depth),
-    attr_replacement: false,
-  }
-}
-
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 3c860505d8076ceac9f1e31bfd429052f5a35007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 099/112] fix: include directive without a target at the end of
 the input

---
 parser/src/lexer/source_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 9f69e14..e915647 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -339,7 +339,8 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && (self.remaining_len() > 4 || lexeme != b"include" && self.remaining_len() == 4) =>
+          && self.remaining_len() >= 4
+          && (lexeme != b"include" || self.peek_n(2) != Some(b'[')) =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From 2d002852eeb8d5c7ec8a3f280cf74adecd8b1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 100/112] fix: anchor in an unresolved include directive
 panicked

---
 parser/src/tasks/parse_attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index dcf4539..a92d6f3 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -66,7 +66,7 @@ impl<'arena> Parser<'arena> {
     ) {
       return Ok(None);
     }
-    let start = current.loc.start - 2;
+    let start = current.loc.start.saturating_sub(2);
     let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
     assert!(!id.is_empty());
     let mut anchor = AnchorSrc {
-- 
2.43.0


From 7b5615201a87301899b8634de735ca0b73fb9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 101/112] fix: an index term with secondary terms is exited for
 each entered

---
 eval/src/eval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index f5c39c5..44447e8 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -619,6 +619,7 @@ fn eval_index_term(index_term: &asciidork_ast::IndexTerm, ctx: &Ctx, backend: &m
     asciidork_ast::IndexTermType::Visible { term } => {
       if backend.enter_visible_index_term() {
         term.iter().for_each(|n| eval_inline(n, ctx, backend));
+        backend.exit_visible_index_term();
       }
     }
     asciidork_ast::IndexTermType::Concealed { primary, secondary, tertiary } => {
@@ -638,8 +639,8 @@ fn eval_index_term(index_term: &asciidork_ast::IndexTerm, ctx: &Ctx, backend: &m
           tertiary.iter().for_each(|n| eval_inline(n, ctx, backend));
           backend.exit_concealed_index_term_tertiary();
         }
+        backend.exit_concealed_index_term(num_terms);
       }
-      backend.exit_concealed_index_term(num_terms);
     }
   }
 }
-- 
2.43.0


From c9d62461d67d0702d704235ef21b60fe2ffa9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 102/112] fix: texts in attribute values and outside of
 paragraphs are escaped by the html backends

---
 backend-html5s/src/html5s.rs            |  73 +++++++++------
 backend/src/html/backend.rs             | 115 ++++++++++++++++--------
 backend/src/html/htmlbuf.rs             |  30 +++++--
 backend/src/html/open_tag.rs            |   8 +-
 backend/src/html/video.rs               |  64 +++++++------
 dr-html-backend/src/asciidoctor_html.rs |  70 ++++++++++-----
 6 files changed, 236 insertions(+), 124 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index cafaa08..0fe5d4f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -203,9 +203,11 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push_str(r#" id=""#);
+      self.push_quoted(id);
+      self.push_ch('"');
     }
-    self.push_str("\">");
+    self.push_ch('>');
     self.push_part_prefix();
   }
 
@@ -333,14 +335,15 @@ impl Backend for Html5s {
       }
       if let Some(highlighter) = self.doc_meta.str("source-highlighter") {
         html.push(' ');
-        html.push_str(highlighter);
+        html.push_str(&highlighter.replace('"', "&quot;"));
       }
       html.push_str("\"><code");
       if let Some(lang) = block.meta.attrs.source_language().or(doc_lang) {
+        let lang = lang.replace('"', "&quot;");
         html.push_str(" class=\"language-");
-        html.push_str(lang);
+        html.push_str(&lang);
         html.push_str("\" data-lang=\"");
-        html.push_str(lang);
+        html.push_str(&lang);
         html.push('"');
       }
       self.state.ephemeral.insert(IsSourceBlock);
@@ -1025,18 +1028,18 @@ impl Backend for Html5s {
 
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
+      self.push_str("<a id=\"");
+      self.push_quoted(id);
+      self.push_str("\" aria-hidden=\"true\"></a>");
     }
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push([
-      "<a id=\"",
-      id,
-      "\" aria-hidden=\"true\"></a>[",
-      reftext.unwrap_or(id),
-      "]",
-    ]);
+    self.push_str("<a id=\"");
+    self.push_quoted(id);
+    self.push_str("\" aria-hidden=\"true\"></a>[");
+    self.push_specialchar_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   fn visit_callout(&mut self, callout: Callout) {
@@ -1057,7 +1060,9 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push_str(r#"<kbd class="button"><samp>"#);
+    self.push_specialchar_escaped(text);
+    self.push_str("</samp></kbd>");
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1075,44 +1080,48 @@ impl Backend for Html5s {
         self.push_str(r#"<b class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_quoted(role);
         });
         if let Some(title) = attrs.named("title") {
-          self.push([r#"" title=""#, title]);
+          self.push_str(r#"" title=""#);
+          self.push_quoted(title);
         }
         self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_quoted(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
         self.push_str(r#" class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_quoted(role);
         });
         self.push_str(r#"">"#);
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_quoted(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_str(" fa-");
+          self.push_quoted(size);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_str(" fa-flip-");
+          self.push_quoted(flip);
         } else if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_str(" fa-rotate-");
+          self.push_quoted(rotate);
         }
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_quoted(role);
         });
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1163,13 +1172,15 @@ impl Backend for Html5s {
     }
     if !style.is_empty() {
       self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      self.push_str(" style=\"");
+      self.push_quoted(&style);
+      self.push_str("\">");
     }
     if !attrs.roles.is_empty() {
       self.html.pop();
       self.push_str(" class=\"");
       for role in attrs.roles.iter() {
-        self.push_str(&role.src);
+        self.push_quoted(&role.src);
         self.push_ch(' ');
       }
       self.html.pop();
@@ -1208,7 +1219,9 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push_str("<kbd class=\"key\">");
+      self.push_specialchar_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
@@ -1271,11 +1284,13 @@ impl Backend for Html5s {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(items.next().unwrap());
     self.push_str("</samp></kbd>");
     for item in items {
       self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push_str("menu\"><samp>");
+      self.push_specialchar_escaped(item);
+      self.push_str("</samp></kbd>");
     }
     self.push_str("</kbd>");
   }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 5ae1c24..60af9e2 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -63,37 +63,51 @@ pub trait HtmlBackend: HtmlBuf {
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
     self.push_str(r#"<!DOCTYPE html><html"#);
     if !meta.is_true("nolang") {
-      self.push([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
+      self.push_str(r#" lang=""#);
+      self.push_quoted(meta.str_or("lang", "en"));
+      self.push_ch('"');
     }
     self.push_str("><head>");
   }
 
   fn meta_tags(&mut self, meta: &DocumentMeta) {
     let encoding = meta.str_or("encoding", "UTF-8");
-    self.push([r#"<meta charset=""#, encoding, r#"">"#]);
+    self.push_str(r#"<meta charset=""#);
+    self.push_quoted(encoding);
+    self.push_str(r#"">"#);
     self.push_str(r#"<meta http-equiv="X-UA-Compatible" content="IE=edge">"#);
     self.push_str(r#"<meta name="viewport" content="width=device-width, initial-scale=1.0">"#);
     if !meta.is_true("reproducible") {
       self.push_str(r#"<meta name="generator" content="Asciidork">"#);
     }
     if let Some(appname) = meta.str("app-name") {
-      self.push([r#"<meta name="application-name" content=""#, appname, "\">"]);
+      self.push_str(r#"<meta name="application-name" content=""#);
+      self.push_quoted(appname);
+      self.push_str("\">");
     }
     if let Some(desc) = meta.str("description") {
-      self.push([r#"<meta name="description" content=""#, desc, "\">"]);
+      self.push_str(r#"<meta name="description" content=""#);
+      self.push_quoted(desc);
+      self.push_str("\">");
     }
     if let Some(keywords) = meta.str("keywords") {
-      self.push([r#"<meta name="keywords" content=""#, keywords, "\">"]);
+      self.push_str(r#"<meta name="keywords" content=""#);
+      self.push_quoted(keywords);
+      self.push_str("\">");
     }
     if let Some(copyright) = meta.str("copyright") {
-      self.push([r#"<meta name="copyright" content=""#, copyright, "\">"]);
+      self.push_str(r#"<meta name="copyright" content=""#);
+      self.push_quoted(copyright);
+      self.push_str("\">");
     }
   }
 
   fn open_body(&mut self, document: &Document) {
     self.push_str("<body");
     if let Some(custom_id) = document.meta.str("css-signature") {
-      self.push([r#" id=""#, custom_id, "\""]);
+      self.push_str(r#" id=""#);
+      self.push_quoted(custom_id);
+      self.push_ch('"');
     }
     self.push([r#" class=""#, document.meta.get_doctype().to_str()]);
     match document.toc.as_ref().map(|toc| &toc.position) {
@@ -142,11 +156,10 @@ pub trait HtmlBackend: HtmlBuf {
     let state = self.state_mut();
     state.xref_depth += 1;
     if state.xref_depth == 1 {
-      self.push([
-        "<a href=\"",
-        &utils::xref::href(target, self.doc_meta(), kind, true),
-        "\">",
-      ]);
+      let href = utils::xref::href(target, self.doc_meta(), kind, true);
+      self.push_str("<a href=\"");
+      self.push_quoted(&href);
+      self.push_str("\">");
     }
   }
 
@@ -258,22 +271,30 @@ pub trait HtmlBackend: HtmlBuf {
     crate::html::video::element(self, target, attrs);
   }
 
+  fn push_media_fragment(&mut self, attrs: &AttrList) {
+    let start = attrs.named("start");
+    let end = attrs.named("end");
+    if start.is_some() || end.is_some() {
+      self.push_str("#t=");
+      self.push_quoted(start.unwrap_or(""));
+    }
+    if let Some(end) = end {
+      self.push_ch(',');
+      self.push_quoted(end);
+    }
+    self.push_ch('"');
+  }
+
   fn audio_element(&mut self, target: &str, attrs: &AttrList) {
     self.push_str(r#"<audio src=""#);
     if !regx::URI_SNIFF.is_match(target)
       && let Some(imagesdir) = self.doc_meta().string("imagesdir")
     {
-      self.push([&imagesdir, "/"]);
-    }
-    self.push_str(target);
-    let start = attrs.named("start");
-    let end = attrs.named("end");
-    match (start, end) {
-      (None, Some(end)) => self.push(["#t=,", end, "\""]),
-      (Some(start), None) => self.push(["#t=", start, "\""]),
-      (Some(start), Some(end)) => self.push(["#t=", start, ",", end, "\""]),
-      (None, None) => self.push_ch('"'),
+      self.push_quoted(&imagesdir);
+      self.push_ch('/');
     }
+    self.push_quoted(target);
+    self.push_media_fragment(attrs);
     if attrs.has_option("autoplay") {
       self.push_str(" autoplay");
     }
@@ -435,7 +456,12 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    tag.push_specialchar_escaped(target);
+    for (index, part) in target.split('"').enumerate() {
+      if index > 0 {
+        tag.push_str("&quot;");
+      }
+      tag.push_specialchar_escaped(part);
+    }
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -483,7 +509,8 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       OpenTag::new("a", &NoAttrs)
     };
-    a_tag.push([" href=\"mailto:", address]);
+    a_tag.push_str(" href=\"mailto:");
+    a_tag.push_quoted(address);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_url_encoded(subject);
@@ -660,14 +687,18 @@ pub trait HtmlBackend: HtmlBuf {
     block: &Block,
     items: &[ListItem],
   ) {
-    self.push([r#"<ol class=""#, class, "\""]);
+    self.push_str(r#"<ol class=""#);
+    self.push_quoted(class);
+    self.push_ch('"');
 
     if list_type != "1" {
       self.push([" type=\"", list_type, "\""]);
     }
 
     if let Some(attr_start) = block.meta.attrs.named("start") {
-      self.push([" start=\"", attr_start, "\""]);
+      self.push_str(" start=\"");
+      self.push_quoted(attr_start);
+      self.push_ch('"');
     } else {
       match items[0].marker {
         ListMarker::Digits(1) => {}
@@ -720,14 +751,16 @@ pub trait HtmlBackend: HtmlBuf {
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
     let level_str = crate::num_str!(level + 1);
     if let Some(id) = id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\""]);
+      self.push(["<h", &level_str, r#" id=""#]);
+      self.push_quoted(id);
+      self.push_ch('"');
     } else {
       self.push(["<h", &level_str]);
     }
     self.push_str(r#" class="discrete"#);
     for role in block.meta.attrs.roles() {
       self.push_ch(' ');
-      self.push_str(role);
+      self.push_quoted(role);
     }
     self.push_str("\">");
   }
@@ -751,7 +784,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
-      self.push_str(id);
+      self.push_quoted(id);
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
@@ -805,16 +838,21 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
     let level_str = crate::num_str!(section.level + 1);
     if let Some(id) = &section.id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
+      self.push(["<h", &level_str, r#" id=""#]);
+      self.push_quoted(id);
+      self.push_str("\">");
       if self.doc_meta().is_true("sectanchors") {
-        self.push([r##"<a class="anchor" href="#"##, id]);
+        self.push_str(r##"<a class="anchor" href="#"##);
+        self.push_quoted(id);
         if accessible {
           self.push_str(r#"" aria-hidden="true"#);
         }
         self.push_str("\"></a>");
       }
       if self.doc_meta().is_true("sectlinks") {
-        self.push([r##"<a class="link" href="#"##, id, "\">"]);
+        self.push_str(r##"<a class="link" href="#"##);
+        self.push_quoted(id);
+        self.push_str("\">");
       }
     } else {
       self.push(["<h", &level_str, ">"]);
@@ -846,7 +884,7 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_str(title);
     } else if let Some(title) = document.title() {
       for s in title.main.plain_text() {
-        self.push_str(s);
+        self.push_specialchar_escaped(s);
       }
     } else {
       self.push_str("Untitled");
@@ -872,7 +910,7 @@ pub trait HtmlBackend: HtmlBuf {
         self.push_str(", ");
       }
       // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      self.push_quoted(&author.fullname());
     }
     self.push_str(r#"">"#);
   }
@@ -882,7 +920,10 @@ pub trait HtmlBackend: HtmlBuf {
       Some(AttrValue::String(path)) => {
         let ext = crate::utils::file_ext(path).unwrap_or("ico");
         self.push_str(r#"<link rel="icon" type="image/"#);
-        self.push([ext, r#"" href=""#, path, "\">"]);
+        self.push_quoted(ext);
+        self.push_str(r#"" href=""#);
+        self.push_quoted(path);
+        self.push_str("\">");
       }
       Some(AttrValue::Bool(true)) => {
         self.push_str(r#"<link rel="icon" type="image/x-icon" href="favicon.ico">"#);
@@ -909,7 +950,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
       backend.push_str("data:image/");
       if let Some(ext) = file::ext(target) {
         let mimetype = iff!(ext == "svg", "svg+xml", ext);
-        backend.push_str(mimetype);
+        backend.push_quoted(mimetype);
       } else {
         backend.push_str("application/octet-stream");
       }
@@ -920,7 +961,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
     None => {
       if target.starts_with("data:") {
-        backend.push_str(target);
+        backend.push_quoted(target);
       } else {
         backend.push_img_path(target);
       }
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..799fce6 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -29,6 +29,11 @@ pub trait HtmlBuf {
     self.htmlbuf().push(c);
   }
 
+  /// push (part of) an attribute value, which must not end the attribute
+  fn push_quoted(&mut self, s: &str) {
+    push_quoted(s, self.htmlbuf());
+  }
+
   fn push<const N: usize>(&mut self, strs: [&str; N]) {
     for s in strs {
       self.push_str(s);
@@ -87,7 +92,8 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
+      self.push_str(r#" target=""#);
+      self.push_quoted(window);
       if window == "_blank" || attrs.has_option("noopener") {
         self.push_str("\" rel=\"noopener");
       }
@@ -153,12 +159,10 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   while let Some(c) = it.next() {
     match c {
       '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
+        if NUMERIC_CHAR_REF.is_match(&src[pos..]) {
+          dest.push(c);
+        } else {
+          dest.push_str("&amp;");
         }
       }
       '&' => dest.push_str("&amp;"),
@@ -172,16 +176,26 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   }
 }
 
+pub(crate) fn push_quoted(src: &str, dest: &mut String) {
+  for (index, part) in src.split('"').enumerate() {
+    if index > 0 {
+      dest.push_str("&quot;");
+    }
+    dest.push_str(part);
+  }
+}
+
 fn push_url_encoded(buf: &mut String, s: &str) {
   for c in s.chars() {
     match c {
       ' ' => buf.push_str("%20"),
       ',' => buf.push_str("%2C"),
+      '"' => buf.push_str("%22"),
       _ => buf.push(c),
     }
   }
 }
 
 lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
+  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"^&#(?:[0-9]+|x[0-9a-fA-F]+);").unwrap();
 }
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..6e6e532 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -1,4 +1,4 @@
-use crate::html::htmlbuf::HtmlBuf;
+use crate::html::htmlbuf::{HtmlBuf, push_quoted};
 use ast::{AttrValue, DocumentMeta, prelude::*};
 use core::ReadAttr;
 
@@ -49,10 +49,10 @@ impl OpenTag {
     let mut roles = attrs.roles();
     if let Some(first_role) = roles.next() {
       let mut append = String::with_capacity(24);
-      append.push_str(first_role);
+      push_quoted(first_role, &mut append);
       for role in roles {
         append.push(' ');
-        append.push_str(role);
+        push_quoted(role, &mut append);
       }
       tag.append_classes = Some(append);
     }
@@ -97,7 +97,7 @@ impl OpenTag {
     if let Some(prefix) = prefix {
       self.buf.push_str(prefix);
     }
-    self.buf.push_str(class.as_ref());
+    self.push_quoted(class.as_ref());
   }
 
   pub fn push_resolved_attr_class(
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 9af92b4..58cd3f3 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -28,26 +28,36 @@ fn service<B: HtmlBackend + ?Sized>(
   if let Some(param) = provider.slash_param()
     && let Some((id, hash)) = target_parts
   {
-    backend.push([id, "?", param, "=", hash]);
+    backend.push_quoted(id);
+    backend.push(["?", param, "="]);
+    backend.push_quoted(hash);
     param_pushed = true;
   } else if provider == Provider::YouTube && target.contains(",") {
     for (index, id) in target.split(",").enumerate() {
       if index == 0 {
-        backend.push([id, "?playlist=", id]);
+        backend.push_quoted(id);
+        backend.push_str("?playlist=");
+        backend.push_quoted(id);
         param_pushed = true;
       } else {
-        backend.push([",", id]);
+        backend.push_ch(',');
+        backend.push_quoted(id);
       }
     }
   } else if provider == Provider::YouTube
     && let Some(playlist) = attrs.named("playlist")
   {
-    backend.push([target, "?playlist=", target, ",", playlist]);
+    backend.push_quoted(target);
+    backend.push_str("?playlist=");
+    backend.push_quoted(target);
+    backend.push_ch(',');
+    backend.push_quoted(playlist);
     param_pushed = true;
   } else {
-    backend.push_str(target);
+    backend.push_quoted(target);
     if let Some(hash) = attrs.named("hash") {
-      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", hash]);
+      backend.push([iff!(param_pushed, "&amp;", "?"), "h="]);
+      backend.push_quoted(hash);
       param_pushed = true;
     }
   }
@@ -66,10 +76,11 @@ fn service<B: HtmlBackend + ?Sized>(
   // start param (last because vimeo uses # frag not &)
   if let Some(start) = attrs.named("start") {
     match provider {
-      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", start]),
-      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", start]),
-      Provider::Vimeo => backend.push(["#at=", start]),
+      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start="]),
+      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time="]),
+      Provider::Vimeo => backend.push_str("#at="),
     }
+    backend.push_quoted(start);
   }
 
   backend.push_str("\" frameborder=\"0\"");
@@ -96,23 +107,21 @@ fn native_element<B: HtmlBackend + ?Sized>(
   if !regx::URI_SNIFF.is_match(target)
     && let Some(ref imagesdir) = imagesdir
   {
-    backend.push([imagesdir, "/"]);
-  }
-  backend.push_str(target);
-  let start = attrs.named("start");
-  let end = attrs.named("end");
-  match (start, end) {
-    (None, Some(end)) => backend.push(["#t=,", end, "\""]),
-    (Some(start), None) => backend.push(["#t=", start, "\""]),
-    (Some(start), Some(end)) => backend.push(["#t=", start, ",", end, "\""]),
-    (None, None) => backend.push_ch('"'),
+    backend.push_quoted(imagesdir);
+    backend.push_ch('/');
   }
+  backend.push_quoted(target);
+  backend.push_media_fragment(attrs);
   push_dims(backend, attrs);
   if let Some(poster) = poster {
     if !regx::URI_SNIFF.is_match(poster)
       && let Some(ref imagesdir) = imagesdir
     {
-      backend.push([" poster=\"", imagesdir, "/", poster, "\""]);
+      backend.push_str(" poster=\"");
+      backend.push_quoted(imagesdir);
+      backend.push_ch('/');
+      backend.push_quoted(poster);
+      backend.push_ch('"');
     } else {
       backend.push_html_attr("poster", poster);
     }
@@ -147,15 +156,18 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   ]);
   *param_pushed = true;
   if let Some(theme) = attrs.named("theme") {
-    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
+    backend.push_str(iff!(*param_pushed, "&amp;theme=", "?theme="));
+    backend.push_quoted(theme);
     *param_pushed = true;
   }
   if let Some(lang) = attrs.named("lang") {
-    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
+    backend.push_str(iff!(*param_pushed, "&amp;hl=", "?hl="));
+    backend.push_quoted(lang);
     *param_pushed = true;
   }
   if let Some(end) = attrs.named("end") {
-    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), end]);
+    backend.push_str(iff!(*param_pushed, "&amp;end=", "?end="));
+    backend.push_quoted(end);
     *param_pushed = true;
   }
   if attrs.has_option("nofullscreen") {
@@ -167,10 +179,12 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     *param_pushed = true;
   }
   if let Some(list) = attrs.named("list") {
-    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), list]);
+    backend.push_str(iff!(*param_pushed, "&amp;list=", "?list="));
+    backend.push_quoted(list);
     *param_pushed = true;
   } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
-    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", target]);
+    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist="]);
+    backend.push_quoted(target);
     *param_pushed = true;
   }
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 12c1be5..cb3c81b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -220,11 +220,14 @@ impl Backend for AsciidoctorHtml {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id, "\""]);
+      self.push_str(r#" id=""#);
+      self.push_quoted(id);
+      self.push_ch('"');
     }
     self.push_str(r#" class="sect0"#);
     for role in title.meta.attrs.roles() {
-      self.push([" ", role]);
+      self.push_ch(' ');
+      self.push_quoted(role);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -360,9 +363,9 @@ impl Backend for AsciidoctorHtml {
     if block.meta.attrs.is_source() || doc_lang.is_some() {
       self.push_str(r#" class="highlight"><code"#);
       if let Some(lang) = block.meta.attrs.source_language() {
-        self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
+        self.push_code_lang(lang);
       } else if let Some(lang) = doc_lang {
-        self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
+        self.push_code_lang(&lang);
       }
       self.push_ch('>');
       self.state.ephemeral.insert(IsSourceBlock);
@@ -1081,13 +1084,19 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\"></a>"]);
+      self.push_str("<a id=\"");
+      self.push_quoted(id);
+      self.push_str("\"></a>");
     }
   }
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    self.push_str("<a id=\"");
+    self.push_quoted(id);
+    self.push_str("\"></a>[");
+    self.push_specialchar_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   #[instrument(skip_all)]
@@ -1121,7 +1130,9 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push_str(r#"<b class="button">"#);
+    self.push_specialchar_escaped(text);
+    self.push_str("</b>");
   }
 
   #[instrument(skip_all)]
@@ -1129,7 +1140,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(r#"<span class="icon"#);
     attrs.roles.iter().for_each(|role| {
       self.push_str(" ");
-      self.push_str(role);
+      self.push_quoted(role);
     });
     self.push_str(r#"">"#);
     let has_link = if let Some(link) = attrs.named("link") {
@@ -1144,14 +1155,14 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_quoted(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
@@ -1159,15 +1170,18 @@ impl Backend for AsciidoctorHtml {
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_quoted(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_str(" fa-");
+          self.push_quoted(size);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_str(" fa-flip-");
+          self.push_quoted(flip);
         }
         if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_str(" fa-rotate-");
+          self.push_quoted(rotate);
         }
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1250,7 +1264,9 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push_str("<kbd>");
+      self.push_specialchar_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</span>");
@@ -1318,17 +1334,19 @@ impl Backend for AsciidoctorHtml {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(items.next().unwrap());
     self.push_str("</b>");
 
     let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
-        self.push(["menuitem\">", item, "</b>"]);
+        self.push_str("menuitem\">");
       } else {
-        self.push(["submenu\">", item, "</b>"]);
+        self.push_str("submenu\">");
       }
+      self.push_specialchar_escaped(item);
+      self.push_str("</b>");
     }
     self.push_str("</span>");
   }
@@ -1351,7 +1369,7 @@ impl Backend for AsciidoctorHtml {
     {
       self.push_str(r#"<img src=""#);
       self.push_icon_img_path();
-      self.push_str(custom_icon);
+      self.push_quoted(custom_icon);
       if !file::has_ext(custom_icon) {
         self.push_icon_inferred_img_ext();
       }
@@ -1416,7 +1434,7 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(href);
+      a_tag.push_quoted(href);
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
@@ -1498,7 +1516,9 @@ impl Backend for AsciidoctorHtml {
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-      self.push([r#" id="_footnote_"#, id, "\""]);
+      self.push_str(r#" id="_footnote_"#);
+      self.push_quoted(id);
+      self.push_ch('"');
     }
     self.push_str(r#">[<a id="_footnoteref_"#);
     self.push([&nums, r##"" class="footnote" href="#_footnotedef_"##, &nums]);
@@ -1569,6 +1589,14 @@ impl AsciidoctorHtml {
     self.html
   }
 
+  fn push_code_lang(&mut self, lang: &str) {
+    self.push_str(" class=\"language-");
+    self.push_quoted(lang);
+    self.push_str("\" data-lang=\"");
+    self.push_quoted(lang);
+    self.push_ch('"');
+  }
+
   fn render_buffered_block_title(&mut self, block: &Block) {
     if block.has_title() {
       let buf = self.take_buffer();
-- 
2.43.0


From f4c5d0c8c803bc2e499bd519abc0fe905f69b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 103/112] fix: description lists of several kinds nest, terms
 without description are closed

---
 backend/src/html/backend.rs             |  2 ++
 dr-html-backend/src/asciidoctor_html.rs | 41 ++++++++++++++++++-------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 60af9e2..7c0dc18 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -31,6 +31,8 @@ pub struct BackendState {
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
   pub desc_list_depth: u8,
+  /// kinds of the description lists around the current one
+  pub outer_desc_lists: Vec<Option<EphemeralState>>,
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index cb3c81b..fe89537 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -575,6 +575,10 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.state.desc_list_depth += 1;
+    let outer = [InGlossaryList, InHorizontalDescList, InQandaDescList]
+      .into_iter()
+      .find(|kind| self.state.ephemeral.remove(kind));
+    self.state.outer_desc_lists.push(outer);
     if block.meta.attrs.has_str_positional("horizontal") {
       self.state.ephemeral.insert(InHorizontalDescList);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
@@ -585,18 +589,16 @@ impl Backend for AsciidoctorHtml {
       if labelwidth.is_some() || itemwidth.is_some() {
         self.push_str("<colgroup>");
         if let Some(labelwidth) = labelwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            labelwidth.trim_end_matches('%')
-          ));
+          self.push_str(r#"<col style="width: "#);
+          self.push_quoted(labelwidth.trim_end_matches('%'));
+          self.push_str(r#"%;">"#);
         } else {
           self.push_str("<col>");
         }
         if let Some(itemwidth) = itemwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            itemwidth.trim_end_matches('%')
-          ));
+          self.push_str(r#"<col style="width: "#);
+          self.push_quoted(itemwidth.trim_end_matches('%'));
+          self.push_str(r#"%;">"#);
         } else {
           self.push_str("<col>");
         }
@@ -629,6 +631,9 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("</dl></div>");
     }
+    if let Some(Some(outer)) = self.state.outer_desc_lists.pop() {
+      self.state.ephemeral.insert(outer);
+    }
     self.state.desc_list_depth -= 1;
   }
 
@@ -637,7 +642,7 @@ impl Backend for AsciidoctorHtml {
     if self.state.ephemeral.contains(&InGlossaryList) {
       self.push_str(r#"<dt>"#);
     } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
+      self.push_str(iff!(num == 1, r#"<tr><td class="hdlist1">"#, "<br>"));
     } else if self.state.ephemeral.contains(&InQandaDescList) {
       if num == 1 {
         self.push_str(r#"<li>"#);
@@ -649,11 +654,25 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
+  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
+    let undescribed = num == total
+      && item.blocks.is_empty()
+      && matches!(
+        item.type_meta,
+        ListItemTypeMeta::DescList { description: None, .. }
+      );
     if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
+      if num == total {
+        self.push_str("</td>");
+      }
+      if undescribed {
+        self.push_str(r#"<td class="hdlist2"></td></tr>"#);
+      }
     } else if self.state.ephemeral.contains(&InQandaDescList) {
       self.push_str(r#"</em></p>"#);
+      if undescribed {
+        self.push_str("</li>");
+      }
     } else {
       self.push_str("</dt>");
     }
-- 
2.43.0


From eb1fa67c6599551129e94a06dc83a9593312b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 104/112] fix: special characters inside of tokens are escaped,
 link macro with spaces keeps its target apart

---
 .../src/tasks/parse_inlines/inline_utils.rs   | 46 ++++++++++++++++++-
 parser/src/tasks/parse_inlines/mod.rs         | 14 +++---
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 1c1b5ea..6d591f3 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -87,11 +87,16 @@ impl<'arena> Parser<'arena> {
 pub struct Accum<'arena> {
   pub inlines: InlineNodes<'arena>,
   pub text: CollectText<'arena>,
+  special_chars: bool,
 }
 
 impl<'arena> Accum<'arena> {
-  pub const fn new(inlines: InlineNodes<'arena>, text: CollectText<'arena>) -> Self {
-    Self { inlines, text }
+  pub const fn new(
+    inlines: InlineNodes<'arena>,
+    text: CollectText<'arena>,
+    special_chars: bool,
+  ) -> Self {
+    Self { inlines, text, special_chars }
   }
 }
 
@@ -186,7 +191,44 @@ impl<'arena> Accum<'arena> {
     self.push_node(Inline::SpecialChar(SpecialCharKind::GreaterThan), end);
   }
 
+  /// text in which nothing but special characters is replaced
+  pub fn push_escaped(&mut self, text: &str) {
+    if !self.special_chars {
+      self.text.push_str(text);
+      return;
+    }
+    for piece in text.split_inclusive(['&', '<', '>']) {
+      let kind = match piece.as_bytes().last() {
+        Some(b'&') => SpecialCharKind::Ampersand,
+        Some(b'<') => SpecialCharKind::LessThan,
+        Some(b'>') => SpecialCharKind::GreaterThan,
+        _ => {
+          self.text.push_str(piece);
+          continue;
+        }
+      };
+      self.text.push_str(&piece[..piece.len() - 1]);
+      let mut loc = self.text.loc.clamp_end();
+      loc.end += 1;
+      self.push_node(Inline::SpecialChar(kind), loc);
+    }
+  }
+
   pub fn push_text_token(&mut self, token: &Token) {
+    use TokenKind::*;
+    if self.special_chars
+      && !matches!(token.kind, Whitespace | Entity)
+      && token.lexeme.contains(['&', '<', '>'])
+    {
+      self.commit();
+      self.text.loc = token.loc.clamp_start();
+      self.push_escaped(&token.lexeme);
+    } else {
+      self.push_raw_token(token);
+    }
+  }
+
+  pub fn push_raw_token(&mut self, token: &Token) {
     if self.text.loc.end == token.loc.start {
       self.text.push_token(token);
     } else {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 4b9651e..51403a1 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -28,7 +28,7 @@ impl<'arena> Parser<'arena> {
     let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
-    let mut acc = Accum::new(inlines, text);
+    let mut acc = Accum::new(inlines, text, self.ctx.subs.special_chars());
     let mut inline_attrs: Option<AttrList> = None;
 
     while let Some(mut line) = lines.consume_current() {
@@ -236,8 +236,9 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if let Some(scheme) = line.consume_if(UriScheme) {
+                    acc.push_text_token(&scheme);
+                  }
                 } else {
                   let target = self
                     .macro_target_from_passthru(&mut line)
@@ -777,7 +778,7 @@ impl<'arena> Parser<'arena> {
 
           // already encoded entities, eg: &#8212;
           Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
-            acc.push_text_token(&token);
+            acc.push_raw_token(&token);
           }
 
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
@@ -874,7 +875,7 @@ impl<'arena> Parser<'arena> {
                     );
                     acc.push_node(SpecialChar(kind), next_token.loc);
                   }
-                  _ => acc.push_text_token(&next_token),
+                  _ => acc.push_raw_token(&next_token),
                 }
               }
             }
@@ -904,6 +905,7 @@ impl<'arena> Parser<'arena> {
             }
           }
 
+          // the whole of a line within a paragraph that looks like an attr entry
           PreprocPassthru => {
             let index: usize = token.lexeme[1..6].parse().unwrap();
             let content = self.ctx.passthrus[index].take().unwrap();
@@ -965,7 +967,7 @@ impl<'arena> Parser<'arena> {
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_vals(text));
+      acc.push_escaped(&self.replace_attr_vals(text));
     }
   }
 
-- 
2.43.0


From 04cec3fa6a5645af414c7204363ab62f4504b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 105/112] fix: toc of a preamble without title, footnote and
 menu texts escaped

---
 backend-html5s/src/html5s.rs            | 31 +++++++++++++--------
 backend/src/html/backend.rs             | 20 ++++++-------
 backend/src/html/htmlbuf.rs             |  9 ++++++
 dr-html-backend/src/asciidoctor_html.rs | 37 +++++++++++++++++--------
 4 files changed, 63 insertions(+), 34 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 0fe5d4f..c5fa3c9 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1480,7 +1480,8 @@ impl Backend for Html5s {
     let num = self.state.footnotes.borrow().len() + 1;
     if let Some(id) = id.filter(|_| footnote.is_empty()) {
       self.push_str(r#"<a class="footnote-ref broken" title="Unresolved note reference.">["#);
-      self.push([id, "]</a>"]);
+      self.push_specialchar_escaped(id);
+      self.push_str("]</a>");
       return;
     }
     let nums = num.to_string();
@@ -1595,14 +1596,18 @@ impl Html5s {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str("\">");
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
     if let Some(email) = &author.email {
       self.push_str(r#"<span class="email" id="email"#);
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push_str("\"><a href=\"mailto:");
+      self.push_target(email);
+      self.push_str("\">");
+      self.push_specialchar_escaped(email);
+      self.push_str("</a></span>");
       if index == 0 {
         self.push_str("<br>");
       }
@@ -1621,7 +1626,8 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &label, " "]);
+      self.push_specialchar_escaped(&revnumber);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
@@ -1629,16 +1635,17 @@ impl Html5s {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([
-        r#"<time id="revdate" datetime=""#,
-        &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
-        r#"">"#,
-        &revdate,
-        "</time>",
-      ]);
+      let date = backend::time::format_date_str(&revdate, "%Y-%m-%d");
+      self.push_str(r#"<time id="revdate" datetime=""#);
+      self.push_target(date.as_ref().unwrap_or(&revdate));
+      self.push_str(r#"">"#);
+      self.push_specialchar_escaped(&revdate);
+      self.push_str("</time>");
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_str(r#"<br><span id="revremark">"#);
+      self.push_specialchar_escaped(&revremark);
+      self.push_str("</span>");
     }
     self.push_str("</div>");
   }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 7c0dc18..433baf3 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -160,7 +160,7 @@ pub trait HtmlBackend: HtmlBuf {
     if state.xref_depth == 1 {
       let href = utils::xref::href(target, self.doc_meta(), kind, true);
       self.push_str("<a href=\"");
-      self.push_quoted(&href);
+      self.push_target(&href);
       self.push_str("\">");
     }
   }
@@ -426,9 +426,11 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_str(&doctitle);
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_specialchar_escaped(utils::xref::remove_leading_hash(&href));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push_ch('[');
+      self.push_specialchar_escaped(target.strip_prefix('#').unwrap_or(target));
+      self.push_ch(']');
     }
   }
 
@@ -458,12 +460,7 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    for (index, part) in target.split('"').enumerate() {
-      if index > 0 {
-        tag.push_str("&quot;");
-      }
-      tag.push_specialchar_escaped(part);
-    }
+    tag.push_target(target);
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -512,7 +509,7 @@ pub trait HtmlBackend: HtmlBuf {
       OpenTag::new("a", &NoAttrs)
     };
     a_tag.push_str(" href=\"mailto:");
-    a_tag.push_quoted(address);
+    a_tag.push_target(address);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_url_encoded(subject);
@@ -524,7 +521,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_specialchar_escaped(address);
     }
   }
 
@@ -1000,4 +997,5 @@ pub enum EphemeralState {
   InBibliography,
   InGlossaryList,
   InAppendix,
+  InPreamble,
 }
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 799fce6..f2afe78 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -17,6 +17,15 @@ pub trait HtmlBuf {
     push_escaped(s, self.htmlbuf(), false);
   }
 
+  fn push_target(&mut self, target: &str) {
+    for (index, part) in target.split('"').enumerate() {
+      if index > 0 {
+        self.push_str("&quot;");
+      }
+      self.push_specialchar_escaped(part);
+    }
+  }
+
   fn push_url_encoded(&mut self, s: &str) {
     push_url_encoded(self.htmlbuf(), s);
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index fe89537..5a7730b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -121,7 +121,9 @@ impl Backend for AsciidoctorHtml {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
-        self.push([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
+        self.push([r#"<div id="footer-text">"#, &label, " "]);
+        self.push_specialchar_escaped(&rev);
+        self.push_str("<br></div>");
       }
       // TODO: last-update-label
     }
@@ -154,8 +156,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_toc(&mut self, toc: &TableOfContents, macro_block: Option<&Block>) {
-    if toc.position == TocPosition::Preamble {
-      self.push_str("</div>"); // close preamble section body
+    if self.toc_closes_preamble_body(toc) {
+      self.push_str("</div>");
     }
     self.state.ephemeral.insert(InTableOfContents);
     self.on_toc_enter();
@@ -178,7 +180,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_toc(&mut self, toc: &TableOfContents) {
-    if toc.position != TocPosition::Preamble {
+    if !self.toc_closes_preamble_body(toc) {
       self.push_str("</div>");
     }
     self.on_toc_exit();
@@ -267,6 +269,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
     if doc_has_title {
+      self.state.ephemeral.insert(InPreamble);
       self.push_str(r#"<div id="preamble"><div class="sectionbody">"#);
     }
   }
@@ -274,6 +277,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn exit_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
     if doc_has_title {
+      self.state.ephemeral.remove(&InPreamble);
       self.push_str("</div></div>");
     }
   }
@@ -1529,7 +1533,8 @@ impl Backend for AsciidoctorHtml {
     let num = self.state.footnotes.borrow().len() + 1;
     if let Some(id) = id.filter(|_| footnote.is_empty()) {
       self.push_str(r#"<sup class="footnoteref red" title="Unresolved footnote reference.">["#);
-      self.push([id, "]</sup>"]);
+      self.push_specialchar_escaped(id);
+      self.push_str("]</sup>");
       return;
     }
     let nums = num.to_string();
@@ -1608,6 +1613,11 @@ impl AsciidoctorHtml {
     self.html
   }
 
+  /// the toc of a preamble goes after its content, which it then closes
+  fn toc_closes_preamble_body(&self, toc: &TableOfContents) -> bool {
+    toc.position == TocPosition::Preamble && self.state.ephemeral.contains(&InPreamble)
+  }
+
   fn push_code_lang(&mut self, lang: &str) {
     self.push_str(" class=\"language-");
     self.push_quoted(lang);
@@ -1749,7 +1759,8 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &label, " "]);
+      self.push_specialchar_escaped(&revnumber);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
@@ -1757,10 +1768,14 @@ impl AsciidoctorHtml {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([r#"<span id="revdate">"#, &revdate, "</span>"]);
+      self.push_str(r#"<span id="revdate">"#);
+      self.push_specialchar_escaped(&revdate);
+      self.push_str("</span>");
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_str(r#"<br><span id="revremark">"#);
+      self.push_specialchar_escaped(&revremark);
+      self.push_str("</span>");
     }
     self.push_str("</div>");
   }
@@ -1771,7 +1786,7 @@ impl AsciidoctorHtml {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str(r#"" class="author">"#);
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
 
     if let Some(email) = &author.email {
@@ -1780,9 +1795,9 @@ impl AsciidoctorHtml {
         self.push_str(&(index + 1).to_string());
       }
       self.push_str(r#"" class="email"><a href="mailto:"#);
-      self.push_str(email);
+      self.push_target(email);
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_specialchar_escaped(email);
       self.push_str("</a></span><br>");
     }
   }
-- 
2.43.0


From 1944678def8171b939e9bdd0d87a1bc75958a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:16 +0000
Subject: [PATCH 106/112] fix: comment after an empty attribute list panicked
 before a list

---
 parser/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 7eb9cb0..27eadba 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -338,6 +338,7 @@ impl<'arena> Parser<'arena> {
     let start_loc = lines.current_token().unwrap().loc;
     let mut attrs = MultiAttrList::new_in(self.bump);
     let mut title = None;
+    let num_lines = lines.len();
     if !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
@@ -370,7 +371,7 @@ impl<'arena> Parser<'arena> {
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
-        Some(line) if line.is_comment() && (!attrs.is_empty() || title.is_some()) => {
+        Some(line) if line.is_comment() && lines.len() < num_lines => {
           lines.consume_current();
         }
         _ => break,
-- 
2.43.0


From 8e0e72549944c27e7096b70ac94591905194593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:16 +0000
Subject: [PATCH 107/112] fix: attribute entries in a cell of a later source
 compared positions with offsets

---
 parser/src/lexer/root_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 5cc9581..6227436 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -228,7 +228,7 @@ impl<'arena> RootLexer<'arena> {
   /// was this line read before the mark?
   pub fn precedes_mark(&self, mark: &LexerMark, file: &SourceFile, line_num: u32) -> bool {
     self.sources.iter().zip(&mark.positions).any(|(source, pos)| {
-      source.file == *file && *pos > 0 && source.line_number_with_offset(pos - 1).0 >= line_num
+      source.file == *file && *pos > 0 && source.line_number_with_offset(source.offset + pos - 1).0 >= line_num
     })
   }
 
-- 
2.43.0


From 691086004692956d1b3fbc136783da8e9cb01410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 108/112] fix: require allow-uri-read for include and image
 targets whose scheme comes from an attribute

---
 parser/src/tasks/directives/includes/process_includes.rs | 4 +++-
 parser/src/tasks/parse_image_block.rs                    | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 20fffca..aab7070 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -158,7 +158,9 @@ impl<'arena> Parser<'arena> {
       let target = self.string(target);
       let original = line.clone();
       let first_token = line.consume_current().unwrap();
-      let target_is_uri = line.current_token().kind(TokenKind::UriScheme);
+      // the scheme might come from an attribute reference, i.e. not be a `UriScheme` token
+      let target_is_uri =
+        line.current_token().kind(TokenKind::UriScheme) || Path::new(target.as_str()).is_uri();
       let num_target_tokens = line.first_nonescaped(TokenKind::OpenBracket).unwrap().1;
       line.discard(num_target_tokens + 1); // including open bracket
       Ok(Some(IncludeDirective {
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..d2e8cb0 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -32,6 +32,8 @@ impl<'arena> Parser<'arena> {
     macro_attrs: &AttrList<'arena>,
     block_attrs: Option<&MultiAttrList<'arena>>,
   ) -> Result<ImageKind<'arena>> {
+    // the scheme might come from an attribute reference, i.e. not be a `UriScheme` token
+    let target_is_uri = target_is_uri || Path::new(target.src.as_str()).is_uri();
     if self.should_resolve_as_inline_svg(target, macro_attrs, block_attrs) {
       self.parse_inline_svg(target, target_is_uri, macro_attrs)
     } else if !self.document.meta.is_true("data-uri")
-- 
2.43.0


From 62b7432065e78e7cab6641a4229c9eff55326d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 109/112] fix: require allow-uri-read for remote docinfo files

---
 parser/src/docinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..096babb 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -80,6 +80,9 @@ impl<'arena> Parser<'arena> {
     file: &str,
   ) -> Option<DocInfoFragment<'arena>> {
     let target = docinfo_target(&self.document.meta, resolver, file);
+    if matches!(target, IncludeTarget::Uri(_)) && !self.document.meta.is_true("allow-uri-read") {
+      return None;
+    }
     let mut buffer = BumpVec::new_in(self.bump);
     resolver
       .resolve(target, &mut buffer, self.document.meta.safe_mode)
-- 
2.43.0


From c9e90b409d07e173fd4401e96330e2cc363c0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 110/112] fix: attribute entries below a # document title or a
 revision line starting with a digit

---
 parser/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 27eadba..292b0be 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -118,15 +118,19 @@ impl<'arena> Parser<'arena> {
         if line.is_empty() && !self.ctx.within_block_comment() {
           // if we encounter a line like `|===` in the very first paragraph,
           // we know we're not in the header anymore, so any attrs refs can be set properly
+          let hash_title = token.kind == Hash && self.lexer.peek_is(b' ');
           if self.ctx.in_header
+            && !hash_title
             && !matches!(
               token.kind,
               Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
             )
+            // a revision line
+            && !(token.kind == Digits && self.ctx.seen_doc_title)
             && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
           {
             self.ctx.in_header = false;
-          } else if self.ctx.in_header && token.kind == EqualSigns {
+          } else if self.ctx.in_header && (token.kind == EqualSigns || hash_title) {
             // a section title also starts the body
             let level = i8::try_from(token.lexeme.len() - 1).unwrap_or(i8::MAX);
             self.ctx.seen_doc_title = level.saturating_add(self.ctx.leveloffset) <= 0;
-- 
2.43.0


From c0cb136fa9ce899cf99663dda1e8c7f055cdb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 111/112] fix: author names which are single or contain
 punctuation, entries beside author and revision line

---
 core/src/document_meta.rs               | 13 +++-
 core/src/types.rs                       | 46 ++++++++-----
 parser/src/tasks/parse_author_line.rs   | 88 ++++++++++---------------
 parser/src/tasks/parse_doc_attrs.rs     | 23 ++-----
 parser/src/tasks/parse_revision_line.rs | 45 ++++---------
 5 files changed, 94 insertions(+), 121 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 00e5646..f347abf 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -95,13 +95,20 @@ impl DocumentMeta {
     _ = self.header_attrs.insert(key, AttrValue::String(value));
   }
 
+  /// assigned by an attribute entry of the header, or derived from its lines
+  pub fn header_attr(&self, key: &str) -> Option<&AttrValue> {
+    self.header_attrs.get(key)
+  }
+
   pub fn add_author(&mut self, author: Author) {
     if self.authors.is_empty() {
       self.insert_string_attr("author", author.fullname());
       if let Some(email) = author.email.as_ref() {
         self.insert_string_attr("email", email.clone());
       }
-      self.insert_string_attr("lastname", author.last_name.clone());
+      if !author.last_name.is_empty() {
+        self.insert_string_attr("lastname", author.last_name.clone());
+      }
       if let Some(middle_name) = author.middle_name.as_ref() {
         self.insert_string_attr("middlename", middle_name.clone());
       }
@@ -114,7 +121,9 @@ impl DocumentMeta {
     if let Some(email) = author.email.as_ref() {
       self.insert_string_attr(&format!("email_{n}"), email.clone());
     }
-    self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    if !author.last_name.is_empty() {
+      self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    }
     if let Some(middle_name) = author.middle_name.as_ref() {
       self.insert_string_attr(&format!("middlename_{n}"), middle_name.clone());
     }
diff --git a/core/src/types.rs b/core/src/types.rs
index 9df2ff0..30cd593 100644
--- a/core/src/types.rs
+++ b/core/src/types.rs
@@ -39,25 +39,39 @@ pub struct Author {
 }
 
 impl Author {
-  pub fn fullname(&self) -> String {
-    let mut name = String::with_capacity(64);
-    name.push_str(&self.first_name);
-    if let Some(middle_name) = &self.middle_name {
-      name.push(' ');
-      name.push_str(middle_name);
+  /// a single name is a first name, the last name is empty then
+  pub fn from_names(names: &str, email: Option<String>) -> Self {
+    let de_underscored = |name: &str| name.replace('_', " ");
+    let parts: Vec<&str> = names.split_whitespace().collect();
+    let (first, middle, last) = match parts.as_slice() {
+      [] => ("", None, ""),
+      [first] => (*first, None, ""),
+      [first, last] => (*first, None, *last),
+      [first, middle @ .., last] => (*first, Some(middle.join(" ")), *last),
+    };
+    Author {
+      first_name: de_underscored(first),
+      middle_name: middle.as_deref().map(de_underscored),
+      last_name: de_underscored(last),
+      email,
     }
-    name.push(' ');
-    name.push_str(&self.last_name);
-    name
+  }
+
+  fn names(&self) -> impl Iterator<Item = &str> {
+    [
+      self.first_name.as_str(),
+      self.middle_name.as_deref().unwrap_or(""),
+      self.last_name.as_str(),
+    ]
+    .into_iter()
+    .filter(|name| !name.is_empty())
+  }
+
+  pub fn fullname(&self) -> String {
+    self.names().collect::<Vec<_>>().join(" ")
   }
 
   pub fn initials(&self) -> String {
-    let mut initials = String::with_capacity(3);
-    initials.push(self.first_name.chars().next().unwrap());
-    if let Some(middle_init) = &self.middle_name.as_ref().and_then(|m| m.chars().next()) {
-      initials.push(*middle_init);
-    }
-    initials.push(self.last_name.chars().next().unwrap());
-    initials
+    self.names().filter_map(|name| name.chars().next()).collect()
   }
 }
diff --git a/parser/src/tasks/parse_author_line.rs b/parser/src/tasks/parse_author_line.rs
index 26247b7..180064d 100644
--- a/parser/src/tasks/parse_author_line.rs
+++ b/parser/src/tasks/parse_author_line.rs
@@ -14,67 +14,47 @@ impl<'arena> Parser<'arena> {
     debug_assert!(!line.is_empty());
     debug_assert!(line.starts(Word));
 
-    let pattern = [
-      r"([^\s<.]+\.?)",                // first
-      r"(\s+([^<;]+\b))*",             // middles
-      r"(\s*([^\s<;]+))",              // last
-      r"(?:\s+<([^\s>@]+@[^\s>]+)>)?", // email
-      r"(\s*;\s*)?",                   // trailing ;
-    ]
-    .concat();
-    let re = Regex::new(&pattern).unwrap();
-
-    let mut first_start = usize::MAX;
-    let mut last_end = 0;
     let src = line.reassemble_src();
-    let src = src.trim_end();
-    for captures in re.captures_iter(src) {
-      if let Some(m) = captures.get(0) {
-        if m.start() < first_start {
-          first_start = m.start();
-        }
-        last_end = m.end();
+    let pattern = r"^([^<]*?[^<\s])(?:\s+<([^\s<>]+)>)?$"; // names, email
+    let re = Regex::new(pattern).unwrap();
+    let mut authors = Vec::with_capacity(1);
+    let mut start = 0;
+    while start < src.len() {
+      // authors are separated by semicolons (which entities contain as well)
+      let end = src[start..]
+        .match_indices(';')
+        .map(|(idx, _)| start + idx)
+        .find(|idx| src[idx + 1..].chars().next().is_none_or(char::is_whitespace))
+        .unwrap_or(src.len());
+      let source = src[start..end].trim();
+      if let Some(captures) = re.captures(source) {
+        let email = captures.get(2).map(|m| m.as_str().to_string());
+        let names = captures.get(1).unwrap().as_str();
+        authors.push(Author::from_names(names, email));
+      } else if !source.is_empty() {
+        let mut loc = line.current_token().unwrap().loc;
+        loc.end = loc.start + end as u32;
+        loc.start += start as u32;
+        return self.err_at("invalid author line", loc);
       }
-      self.document.meta.add_author(author_from(captures));
+      start = end + 1;
     }
-
-    let num_bytes = src.len();
-    if first_start == usize::MAX {
-      self.err_token("invalid author line", line.current_token())
-    } else if first_start > 0 {
-      let loc = line.current_token().unwrap().loc;
-      self.err_at("invalid author line", loc.adding_to_end(first_start as u32))
-    } else if last_end < num_bytes {
-      let mut loc = line.current_token().unwrap().loc;
-      loc.start += last_end as u32;
-      loc.end += num_bytes as u32;
-      self.err_at("invalid author line", loc)
-    } else {
-      Ok(())
+    // attribute entries of the header stand in for (parts of) the line
+    if let (AttrValue::String(email), [author]) = (
+      self.document.meta.header_attr("email").cloned().unwrap_or(AttrValue::Bool(false)),
+      authors.as_mut_slice(),
+    ) {
+      author.email = Some(email);
     }
+    if self.document.meta.authors().is_empty() {
+      for author in authors {
+        self.document.meta.add_author(author);
+      }
+    }
+    Ok(())
   }
 }
 
-fn author_from(captures: regex::Captures) -> Author {
-  let first_name = de_underscore(captures.get(1).unwrap().as_str());
-  let middle_name = captures
-    .get(3)
-    .map(|m| m.as_str().trim_end())
-    .map(de_underscore);
-  let last_name = de_underscore(captures.get(5).unwrap().as_str());
-  let email = captures.get(6).map(|m| m.as_str().to_string());
-  Author {
-    first_name,
-    middle_name,
-    last_name,
-    email,
-  }
-}
-
-fn de_underscore(name: &str) -> String {
-  name.replace('_', " ")
-}
-
 #[cfg(test)]
 mod tests {
   use super::*;
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 465ff01..c7b3c4d 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -170,7 +170,8 @@ impl<'arena> Parser<'arena> {
       let mut attr_author: Option<Author> = None;
       if name == "author"
         && self.document.meta.authors.is_empty()
-        && let Some(author) = author_from_attr(&value)
+        && let Some(author) =
+          author_from_attr(&value, self.document.meta.header_attr("email"))
       {
         attr_author = Some(author);
       } else if name == "email"
@@ -307,23 +308,9 @@ const fn is_attr_word_char(c: u8) -> bool {
   c.is_ascii_alphanumeric() || c == b'_' || c == b'-'
 }
 
-fn author_from_attr(attr: &AttrValue) -> Option<Author> {
-  let author_str = attr.str().filter(|s| !s.is_empty())?;
-  let parts: Vec<&str> = author_str.split_whitespace().collect();
-  Some(Author {
-    first_name: parts.first().unwrap_or(&"").replace('_', " ").to_string(),
-    middle_name: if parts.len() > 2 {
-      Some(parts[1..parts.len() - 1].join(" ").replace('_', " "))
-    } else {
-      None
-    },
-    last_name: parts
-      .get(parts.len().saturating_sub(1))
-      .unwrap_or(&"")
-      .replace('_', " ")
-      .to_string(),
-    email: None,
-  })
+fn author_from_attr(attr: &AttrValue, email: Option<&AttrValue>) -> Option<Author> {
+  let names = attr.str().filter(|s| !s.trim().is_empty())?;
+  Some(Author::from_names(names, email.and_then(AttrValue::str).map(str::to_string)))
 }
 
 #[cfg(test)]
diff --git a/parser/src/tasks/parse_revision_line.rs b/parser/src/tasks/parse_revision_line.rs
index 7cd0edf..3e8ecb6 100644
--- a/parser/src/tasks/parse_revision_line.rs
+++ b/parser/src/tasks/parse_revision_line.rs
@@ -32,57 +32,40 @@ impl Parser<'_> {
 
     // only revision, must start with `v` then digit
     if captures.get(2).is_none() && captures.get(3).is_none() {
-      if Regex::new(r"^v(\d[^\s]+)$").unwrap().is_match(raw_version) {
-        self
-          .document
-          .meta
-          .insert_header_attr("revnumber", version)
-          .unwrap();
+      if Regex::new(r"^v(\d\S*)$").unwrap().is_match(raw_version) {
+        self.derive_header_attr("revnumber", version);
       }
       return Some(end);
     }
-    self
-      .document
-      .meta
-      .insert_header_attr("revnumber", version)
-      .unwrap();
+    self.derive_header_attr("revnumber", version);
 
     // version and remark
     if captures.get(2).is_none() && captures.get(3).is_some() {
       let remark = captures.get(3).unwrap().as_str().to_string();
-      self
-        .document
-        .meta
-        .insert_header_attr("revremark", remark)
-        .unwrap();
+      self.derive_header_attr("revremark", remark);
       return Some(end);
     }
 
     // version and only date
     if captures.get(2).is_some() && captures.get(3).is_none() {
       let date = captures.get(2).unwrap().as_str().to_string();
-      self
-        .document
-        .meta
-        .insert_header_attr("revdate", date)
-        .unwrap();
+      self.derive_header_attr("revdate", date);
       return Some(end);
     }
 
     let date = captures.get(2).unwrap().as_str().to_string();
     let remark = captures.get(3).unwrap().as_str().to_string();
-    self
-      .document
-      .meta
-      .insert_header_attr("revdate", date)
-      .unwrap();
-    self
-      .document
-      .meta
-      .insert_header_attr("revremark", remark)
-      .unwrap();
+    self.derive_header_attr("revdate", date);
+    self.derive_header_attr("revremark", remark);
     Some(end)
   }
+
+  /// attribute entries of the header stand in for (parts of) the line
+  fn derive_header_attr(&mut self, key: &str, value: String) {
+    if self.document.meta.header_attr(key).is_none() {
+      self.document.meta.insert_header_attr(key, value).unwrap();
+    }
+  }
 }
 
 // tests
-- 
2.43.0


From 5dd4e1b525b6bb8b169fbab4f87b3cdbb6a9817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:28 +0000
Subject: [PATCH 112/112] fix: sum the widths of more than 255 table columns
 without overflow

---
 ast/src/col_widths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..7e9dde5 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.map_or(u32::from(*n), |sum| sum + u32::from(*n)))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
-- 
2.43.0

