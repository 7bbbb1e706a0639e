From c9bb551cd794db8124234297f9260b76217f75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 01/30] fix: a backslash has no meaning inside long brackets

In [[...]] strings and --[[...]] comments Lua interprets no escape, so a
bracket after a backslash closes them.
---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..0e1d375 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -147,13 +147,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -174,7 +173,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From e95233715c105581c890d645eb52b99108fb3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/30] fix: accept a plus sign in a numeral's exponent

1e+5 was split into the tokens 1e, + and 5, and written back as the
different (and invalid) text 1e + 5.
---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 0e1d375..9fee021 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 095988d67e60f092845aa6fdcc25016031a15652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 03/30] fix: accept 0X and binary exponents in hexadecimal
 numerals

---
 src/parser/lexer_util.rs | 25 ++++++++++++++++++-------
 src/parser/lua_lexer.rs  |  7 ++++---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 9fee021..624b9cf 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -63,12 +63,10 @@ pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, St
     }
 }
 
-pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
-    // we already got one float symbol
-    let (end, _, mut result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit() && ch != '.');
-
+// reads the exponent of a numeral if there is one: an exponent mark, an optional sign and decimal digits
+fn get_exponent_end(chars: &mut TChars, end: usize, mark: char, mut result: String) -> (usize, bool, String) {
     match chars.peek() {
-        Some(&(i, ch @ 'e')) | Some(&(i, ch @ 'E')) => {
+        Some(&(i, ch)) if ch.to_ascii_lowercase() == mark => {
             chars.next();
             result.push(ch);
 
@@ -90,11 +88,24 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             return (end, false, result);
         }
-        Some(&(_, _)) => return (end, true, result),
-        None => return (end, true, result),
+        _ => return (end, true, result),
+    }
+}
+
+pub fn get_hex_numeral_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
+    match get_hex_integer_end(chars, start) {
+        (end, true, result) => get_exponent_end(chars, end, 'p', result),
+        error => error,
     }
 }
 
+pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
+    // we already got one float symbol
+    let (end, _, result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit() && ch != '.');
+
+    get_exponent_end(chars, end, 'e', result)
+}
+
 pub fn get_variable_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
     let (end, succ, result) = seek_end_by_predicate(chars, start, &|ch: char, _| {
         !ch.is_ascii_alphabetic() && !ch.is_ascii_digit() && ch != '_'
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..fc9802b 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,11 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, mark @ 'x')) | Some(&(_, mark @ 'X')) => {
                             self.chars.next();
-                            let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            let (end, succ, mut val) = get_hex_numeral_end(&mut self.chars, i + 2);
+                            val.insert(0, '0');
+                            val.insert(1, mark);
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 8b51025d25bb85fb60095e3c591e94f51876178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 04/30] fix: no extra hint before the opening brace of a table
 constructor

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..b35e7aa 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -580,7 +580,7 @@ impl ConfiguredWrite for Node {
                 let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), &hint)), "{{", IncFuncLevel())?;
+                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), "")), "{{", IncFuncLevel())?;
 
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
-- 
2.43.0


From 281685afc30183f4600453ea6d836137c265e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 05/30] fix: single-line options without max_width no longer
 panic

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..3187766 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len < max_width => Some(buffer),
+                    _ => None,
                 }
             }
             true => None
-- 
2.43.0


From b45bbcc071b7412770af8ac77e197bee2bfdf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 06/30] fix: an unreadable config file is reported instead of
 aborting the run

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..1eea081 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -304,7 +304,7 @@ impl Config {
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
         let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+            .map_err(|err| format!("An error occured while reading config file `{}`: {}", file_path.display(), err))?;
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From ffd5555b34554804c0f769b2ea97bdd667247340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 07/30] fix: unreadable stdin is reported instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..696f4e7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("An error occured while reading stdin: {}", err);
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From fcc336a29ab8a365afbaad288a2f4e690f1d289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 08/30] fix: accept an unary operator as an operand of another
 operator

---
 src/parser/lua_syntax.lalrpop | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..d3f9d4b 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,20 +529,41 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
+    UnaryExp<T>,
+    Op11<T>,
+}
+
+UnaryExp<T>: Node = {
+    UnaryExpNoMinus<T>,
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:MinusOperand<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+}
+
+UnaryExpNoMinus<T>: Node = {
     <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
+}
+
+// a minus sign right after another one is not supported
+MinusOperand<T>: Node = {
+    UnaryExpNoMinus<T>,
     Op11<T>,
 }
 
-// right-associative operation, but we make it left-associative
+// right-associative operation, but we make it left-associative.
+// An unary operation may only be the last operand, it takes the rest of the chain
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:PowChain<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:UnaryExp<T>> <rs:@R>
+        => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
+    PowChain<T>,
+}
+
+PowChain<T>: Node = {
+    <ls:@L> <e1:PowChain<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
-- 
2.43.0


From 6da316c8cf4ff2513ff13ca1389d1f4229c2f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 09/30] fix: keep the call suffixes of a bracketed prefix that
 crosses the line range

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b35e7aa..3aa8067 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -695,7 +695,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From a3abc856b1fbe68e9aacb2fc1b2df13ccce2b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 10/30] fix: line_range takes in the whole of a top-level
 return and of a statement starting with a bracket

---
 src/formatting/reconstruction.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index d8ff175..1d44183 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -45,8 +45,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | GoTo(span, _, n)
         | WhileDo(span, _, n)
         | RepeatUntil(span, _, n)
-        | RetStatExpr(span, _, n)
-        | RetStatExprComma(span, _, n)
         | Chunk(span, n, _)
         | DoBEnd(span, _, n) => {
             update_pos_range(span, state);
@@ -128,8 +126,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | TableConstructorEmpty(span, _)
         | DoEnd(span, _)
         | Name(span, _)
-        | RetStatNone(span)
-        | RetStatNoneComma(span, _)
         | Semicolon(span)
         | SheBang(span, _)
         | FuncBody(span, _) => {
@@ -153,10 +149,29 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         StatementList(_, v) => {
             state.block_nested_level += 1;
             for (_, node) in v {
-                reconstruct_node_tree(node, cfg, state);
+                match node {
+                    // two statements of the same block, the second one starts with a bracket
+                    StatementList(_, pair) => {
+                        for (_, node) in pair {
+                            reconstruct_node_tree(node, cfg, state);
+                        }
+                    }
+                    _ => reconstruct_node_tree(node, cfg, state),
+                }
             }
             state.block_nested_level -= 1;
         }
+        RetStatNone(span) | RetStatNoneComma(span, _) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            state.block_nested_level -= 1;
+        }
+        RetStatExpr(span, _, n) | RetStatExprComma(span, _, n) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            reconstruct_node_tree(&mut *n, cfg, state);
+            state.block_nested_level -= 1;
+        }
         FuncNameSelf(span, _, v, n) => {
             update_pos_range(span, state);
 
-- 
2.43.0


From c8c945ee313f6a24bde847fb275807af6df4f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 11/30] fix: keep the text of a comment that is a lone opening
 bracket at the end of file

---
 src/parser/lexer_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 624b9cf..549d6cd 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -219,7 +219,10 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let text = format!("[{}", "=".repeat(level));
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, text);
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -234,7 +237,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, "[".to_string()),
             }
         }
         _ => {
-- 
2.43.0


From f8b4390ca9427762f27692c929c38074958d23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 12/30] fix: trimming the text of a comment must not move its
 end

---
 src/formatting/util.rs    |  4 ++++
 src/parser/comment_ast.rs | 29 +++++++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 3187766..e3a15df 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -100,6 +100,10 @@ pub fn has_newlines(s: &str) -> bool {
     return s.find('\n').is_some();
 }
 
+pub fn starts_with_long_bracket(s: &str) -> bool {
+    return s.starts_with('[') && s[1..].trim_start_matches('=').starts_with('[');
+}
+
 pub fn charstring_to_normalstring(s: &str) -> String {
     let mut result = String::new();
     let mut escaped = false;
diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..819763c 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -136,7 +136,10 @@ impl ConfiguredWrite for Node {
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
                             } else {
-                                write!(f, "--{}{}\n", prefix, strimmed)?;
+                                // the text must not become the beginning of a multiline comment
+                                let text = format!("{}{}", prefix, strimmed);
+                                let space = if util::starts_with_long_bracket(&text) { " " } else { "" };
+                                write!(f, "--{}{}\n", space, text)?;
                             }
                             Ok(())
                         }
@@ -152,21 +155,23 @@ impl ConfiguredWrite for Node {
                     Some(true) => Ok(()),
                     _ => {
                         let level_str = (0..*level).map(|_| "=").collect::<String>();
-                        match (
+                        let mut text = match (
                             cfg.fmt.hint_before_multiline_comment_text.as_ref(),
                             cfg.fmt.hint_after_multiline_comment_text.as_ref(),
                         ) {
-                            (Some(prefix), Some(suffix)) => {
-                                write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
-                            }
-                            (Some(prefix), None) => {
-                                write!(f, "--[{}[{}{}]{}]", level_str, prefix, s.trim_start(), level_str)
-                            }
-                            (None, Some(suffix)) => {
-                                write!(f, "--[{}[{}{}]{}]", level_str, s.trim_end(), suffix, level_str)
-                            }
-                            _ => write!(f, "--[{}[{}]{}]", level_str, s, level_str),
+                            (Some(prefix), Some(suffix)) => format!("{}{}{}", prefix, s.trim(), suffix),
+                            (Some(prefix), None) => format!("{}{}", prefix, s.trim_start()),
+                            (None, Some(suffix)) => format!("{}{}", s.trim_end(), suffix),
+                            _ => s.clone(),
+                        };
+
+                        // the end of the text must not become a part of the closing bracket
+                        let closing = format!("]{}]", level_str);
+                        if format!("{}{}", text, closing).find(&closing) != Some(text.len()) {
+                            text.push(' ');
                         }
+
+                        write!(f, "--[{}[{}{}", level_str, text, closing)
                     }
                 }
             }
-- 
2.43.0


From ba1dcdbf07a352b83ec67c07a9a6ee7cc5c071eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 13/30] fix: an opening square bracket is not joined with a
 multiline string

---
 src/parser/lua_ast.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3aa8067..1eeb0e5 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -426,6 +426,15 @@ impl Node {
         }
     }
 
+    // a multiline string must not be joined with the square bracket before it
+    fn bracket_hint(&self) -> &'static str {
+        match self {
+            Node::MultiLineStringLiteral(..) => " ",
+            Node::BinaryOp(_, _, _, l, _) => l.bracket_hint(),
+            _ => "",
+        }
+    }
+
     fn test_indent(
         &self, f: &mut String, cfg: &Config, buf: &str, state: &mut State, hint: CommentLocHint,
     ) -> Result<bool, std::fmt::Error> {
@@ -630,7 +639,7 @@ impl ConfiguredWrite for Node {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e1, locs[1], "]", locs[2], "=", locs[3], e2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e1.bracket_hint()), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
                            "=", Hint(&locs[3], " "), e2)
             }
             FieldNamed(span, locs, e1, e2) => {
@@ -644,7 +653,7 @@ impl ConfiguredWrite for Node {
 
             TableIndex(span, locs, e) => {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e, locs[1], "]");
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e, Hint(&locs[1], ""), "]")
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e.bracket_hint()), e, Hint(&locs[1], ""), "]")
             }
             TableMember(span, locs, n) => {
                 out_of_range_write!(f, cfg, buf, state, span, ".", locs[0], n);
-- 
2.43.0


From ba9134944f5b55af91552659e8b2b24036de0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 14/30] fix: a minus sign is not joined with the comment after
 it

---
 src/formatting/decoration.rs | 1 +
 src/formatting/loc_hint.rs   | 2 ++
 src/formatting/util.rs       | 7 +++++++
 3 files changed, 10 insertions(+)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..4108ed0 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -20,6 +20,7 @@ where
             Ok(..) => {
                 let trimmed = trim_end_spaces_and_tabs(&comment_block);
                 if !trimmed.is_empty() {
+                    separate_minus_from_comment(f, trimmed);
                     write!(f, "{}", &trimmed)?;
 
                     if trimmed.chars().last() != Some('\n') {
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..518e24f 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -51,6 +51,8 @@ impl CommentLocHint<'_, '_> {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
+        util::separate_minus_from_comment(f, comment_block);
+
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index e3a15df..70e05da 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -104,6 +104,13 @@ pub fn starts_with_long_bracket(s: &str) -> bool {
     return s.starts_with('[') && s[1..].trim_start_matches('=').starts_with('[');
 }
 
+// a minus sign joined with a comment would become the beginning of the comment
+pub fn separate_minus_from_comment(f: &mut String, comment_block: &str) {
+    if f.ends_with('-') && comment_block.starts_with('-') {
+        f.push(' ');
+    }
+}
+
 pub fn charstring_to_normalstring(s: &str) -> String {
     let mut result = String::new();
     let mut escaped = false;
-- 
2.43.0


From 6c75ce7afec7d3b3c7610e421dcdac8195a8ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 15/30] fix: the position index is shared, not copied at every
 single-line test

---
 src/config.rs                    | 5 +++--
 src/formatting/reconstruction.rs | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 1eea081..b1c97b4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -4,6 +4,7 @@ use std::fmt::Debug;
 use std::fs;
 use std::path::PathBuf;
 use std::collections::HashMap;
+use std::rc::Rc;
 
 use crate::parser;
 
@@ -414,7 +415,7 @@ pub struct State {
     pub pos_range: Option<(usize, usize)>,
     pub comment_pos_range: Option<(usize, usize)>,
     pub comment_offset: usize,
-    pub chars_to_bytes: HashMap::<usize, usize>,
+    pub chars_to_bytes: Rc<HashMap<usize, usize>>,
 }
 
 impl State {
@@ -427,7 +428,7 @@ impl State {
             pos_range: None,
             comment_pos_range: None,
             comment_offset: 0,
-            chars_to_bytes: HashMap::new(),
+            chars_to_bytes: Rc::new(HashMap::new()),
         }
     }
 }
diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index 1d44183..1b7d9f4 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -2,6 +2,7 @@ use crate::config::*;
 use crate::formatting::util;
 use crate::parser::common::Loc;
 use crate::parser::lua_ast::Node;
+use std::rc::Rc;
 
 fn update_pos_range(span: &Loc, state: &mut State) {
     use std::cmp::{max, min};
@@ -18,10 +19,11 @@ fn update_pos_range(span: &Loc, state: &mut State) {
 
 pub fn update_indexes(buf: &str, state: &mut State) {
     let mut index = 0;
-    buf.char_indices().enumerate().for_each(|(c, (b, _))| { state.chars_to_bytes.entry(c).or_insert(b); index = c; });
+    let chars_to_bytes = Rc::make_mut(&mut state.chars_to_bytes);
+    buf.char_indices().enumerate().for_each(|(c, (b, _))| { chars_to_bytes.entry(c).or_insert(b); index = c; });
 
     // insert EOF index
-    state.chars_to_bytes.entry(index + 1).or_insert(buf.len());
+    chars_to_bytes.entry(index + 1).or_insert(buf.len());
 }
 
 pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
-- 
2.43.0


From 448a97b3dbc85e55357a848762ae4ae084988354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 16/30] fix: no newline is added at an end of file that is
 outside the line range

---
 src/formatting/util.rs | 8 ++++++++
 src/parser/lua_ast.rs  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 70e05da..a7b6289 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -76,6 +76,14 @@ pub fn test_out_of_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
     return false;
 }
 
+pub fn ends_after_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
+    if let Some(&(_, r)) = range.as_ref() {
+        return span.1 > r;
+    }
+
+    return false;
+}
+
 pub fn test_not_completely_contained(range: &Option<(usize, usize)>, span: &Loc) -> bool {
     if let Some(&(l, r)) = range.as_ref() {
         return (span.0 < l && span.1 > l) || (span.0 < r && span.1 > r);
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 1eeb0e5..7d7a8b3 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1214,11 +1214,11 @@ impl ConfiguredWrite for Node {
                 cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
             }
             Chunk(locl, n, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && !util::ends_after_range(&state.pos_range, locr);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, IfNewLine(nl, Hint(&locr, "")))
             }
             SheBangChunk(locl, n, locm, b, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && !util::ends_after_range(&state.pos_range, locr);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, Hint(&locm, ""), b, IfNewLine(nl, Hint(&locr, "")))
             }
 
-- 
2.43.0


From 36a2e50a5dfc33d8e2bab82a037bdebb9c671669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 17/30] fix: out of range white space between comments is
 copied from its own place

---
 src/formatting/list.rs     | 11 ++++++-----
 src/formatting/loc_hint.rs |  9 +++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..90ff0ed 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -2,7 +2,6 @@ use std::fmt::Write;
 
 use super::decoration::*;
 use super::loc_hint::*;
-use super::util;
 use crate::config::*;
 use crate::parser::common::*;
 use crate::{cfg_write, cfg_write_helper};
@@ -60,8 +59,9 @@ where
                 let item = &items[i];
                 write!(f, "{}", get_sep(prev_item_tp))?;
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                let loc_hint = Hint::new(&item.0, "");
+                if loc_hint.is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, loc_hint)?;
                 } else {
                     let need_newline = list_node.need_newlines(cfg)
                         && item.1.need_newline(&prev_item_tp.1, list_node, f, cfg, buf, state);
@@ -109,8 +109,9 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                let loc_hint = Hint::new(&item.0, "");
+                if loc_hint.is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, loc_hint)?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 518e24f..c2118a8 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn is_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 97db0f9e64a352eeddb098ea47f65d3803391c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 18/30] fix: the indent test of a bracketed prefix looks at the
 space before its suffixes

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 7d7a8b3..dac3a98 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -709,7 +709,7 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
 
-                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[0], "")) == Ok(true);
+                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[2], "")) == Ok(true);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, If(ind, &IncIndent(None)), Hint(&locs[2], ""), n2, If(ind, &DecIndent()))
-- 
2.43.0


From 870257ff63e25796d97228a1701046ca049cd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 19/30] fix: an argument that is not valid Unicode is reported
 instead of panicking

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 696f4e7..9cd94f8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,7 +9,8 @@ use luafmt::file_util;
 use luafmt::formatter;
 
 fn get_options_and_filenames() -> (Vec<String>, Vec<String>) {
-    let args: Vec<String> = env::args().skip(1).collect();
+    // an argument that is not valid Unicode names no option and no file
+    let args: Vec<String> = env::args_os().skip(1).map(|arg| arg.to_string_lossy().into_owned()).collect();
     let (options, mut sources): (Vec<_>, Vec<_>) = args.into_iter().partition(|arg| arg.starts_with('-'));
     sources.sort();
 
-- 
2.43.0


From 18bb6d3d4fb9b943f450cf2a883a582220a85794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 20/30] fix: a failure to write the output is reported instead
 of panicking

---
 src/main.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9cd94f8..b31c977 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 use regex::Regex;
 use std::env;
 use std::fs;
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 
 use luafmt::config::Config;
@@ -52,6 +52,13 @@ fn parse_options(options: &Vec<String>) -> (Config, ProgramOpts) {
     (config, program_opts)
 }
 
+fn print_output(output: &str) {
+    let mut stdout = io::stdout();
+    if let Err(err) = stdout.write_all(output.as_bytes()).and_then(|_| stdout.flush()) {
+        eprintln!("An error occured while writing output: {}", err);
+    }
+}
+
 fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &ProgramOpts) {
     match formatter::process_file(&file_path, &config, program_opts.verbose) {
         Ok(output) => match program_opts.inplace {
@@ -61,7 +68,7 @@ fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &Progra
                     eprintln!("{}", format!("An error occured while writing file `{}`: {}", file_path.display(), err))
                 }
             },
-            false => print!("{}", output),
+            false => print_output(&output),
         },
         Err(err) => {
             eprintln!("{}", format!("An error occured while processing file `{}`: {}", file_path.display(), err))
@@ -86,7 +93,7 @@ fn main() {
         }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
-            Ok(output) => print!("{}", output),
+            Ok(output) => print_output(&output),
             Err(msg) => eprintln!("{}", format!("An error occured while processing buffer: {}", msg)),
         }
     } else {
-- 
2.43.0


From 67c5513b4ecdedc253f7cd2276342947ab31fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 21/30] fix: a symbolic link to a directory above is not
 followed

---
 src/file_util.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 216ddfd..5cc6afe 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -4,14 +4,27 @@ use std::io::{self, Error, ErrorKind};
 use std::path::{Path, PathBuf};
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
+    get_path_files_below(path, recursive, ext, filter_prefix, &mut Vec::new())
+}
+
+/// `parents` are the directories that are being listed: a link to one of them leads nowhere new
+fn get_path_files_below(
+    path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str, parents: &mut Vec<PathBuf>,
+) -> io::Result<Vec<PathBuf>> {
     let mut paths = Vec::new();
 
     if path.is_dir() {
+        let real_path = fs::canonicalize(path)?;
+        if parents.contains(&real_path) {
+            return Ok(paths);
+        }
+        parents.push(real_path);
+
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
 
             if inner_path.is_dir() && recursive {
-                paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
+                paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
@@ -20,6 +33,8 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
                 paths.push(inner_path);
             }
         }
+
+        parents.pop();
     } else if path.is_file() {
         paths.push(path.to_path_buf());
     } else {
-- 
2.43.0


From e33932df11671802fa575b4df4378874c389d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 22/30] fix: vertical tab and form feed are white space

---
 src/parser/comment_lexer.rs | 2 +-
 src/parser/lua_lexer.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..1d79665 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -80,7 +80,7 @@ impl<'input> Iterator for Lexer<'input> {
                     }
                     return None;
                 }
-                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0B')) | Some(&(_, '\x0C')) => {
                     self.chars.next();
                 }
 
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index fc9802b..b1a1649 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -231,7 +231,8 @@ impl<'input> Iterator for Lexer<'input> {
                     return None;
                 }
 
-                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0B'))
+                | Some(&(_, '\x0C')) => {
                     self.chars.next();
                 }
 
-- 
2.43.0


From 141e20e8411a38803eb6d271676fd81ea200370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 23/30] fix: twice a very large max_width no longer overflows

---
 src/parser/lua_ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index dac3a98..f02da23 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -343,7 +343,7 @@ impl Node {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -366,7 +366,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -392,7 +392,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -410,7 +410,7 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
-- 
2.43.0


From dfc46891505fc450fd4f70b2de5966e1060938df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 24/30] fix: a hint that ends with a letter outside ASCII no
 longer panics

---
 src/formatting/loc_hint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index c2118a8..0aa0ee1 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -88,9 +88,10 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
                 formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let start = formatted_comment_block.len();
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[start..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From 80797bbda3e16b690b2e655db15f3c0d615c4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 25/30] fix: all blanks before a new line are removed, not only
 the last one

---
 src/formatting/decoration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 4108ed0..9df244e 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -30,7 +30,7 @@ where
                     // if there was trailing spaces in the line, we need remove them.
                     // But if at this point we are in the CommentLocHint, we have a pseudo-string, and we cannot
                     // remove the first letter.
-                    if f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
+                    while f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
                         f.pop();
                     }
 
-- 
2.43.0


From 96963f6518e898ad21b759f54876bdeeb15326fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 26/30] fix: removed comments no longer leave new lines behind

With remove_comments and newline_format_oneline_comment or
newline_format_multiline_comment the new line before every comment was
still written, and left lines of nothing but indentation behind.
---
 src/parser/comment_ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 819763c..846da1f 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -28,10 +28,11 @@ impl list::ListOfItems<Node> for Node {
         }
     }
 
-    fn need_newlines(&self, _cfg: &Config) -> bool {
+    fn need_newlines(&self, cfg: &Config) -> bool {
         use Node::*;
         match self {
-            CommentList(..) | VariantList(..) => true,
+            // removed comments need no new lines
+            CommentList(..) | VariantList(..) => cfg.fmt.remove_comments != Some(true),
             _ => false,
         }
     }
-- 
2.43.0


From 52f1304b2edf6ac9f252f7acbf06137e05e6c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 27/30] fix: read lists in linear time, not by shifting all
 elements for each one

---
 src/parser/lua_syntax.lalrpop | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index d3f9d4b..305fa65 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -26,34 +26,26 @@ TSepList<T, C>: Vec<(Loc, T, Loc, String)> = {
         v.push((Loc(ls, ls), e, Loc(rs, rs), String::new()));
         v
     },
-    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepList<T, C>> => {
+    <v:TSepList<T, C>> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <e:T> <rs:@R> => {
         let mut v = v;
-        if !v.is_empty() {
-            v[0].0 = Loc(l2, r2);
+        if let Some(last) = v.last_mut() {
+            last.2 = Loc(l1, r1);
+            last.3 = sep.to_string();
         }
-        v.insert(0, (Loc(ls, ls), e, Loc(l1, r1), sep.to_string()));
+        v.push((Loc(l2, r2), e, Loc(rs, rs), String::new()));
         v
     }
 };
 
 // cannot be empty, may have a separator at the end
 TSepEndList<T, C>: Vec<(Loc, T, Loc, String)> = {
-    <ls:@L> <e:T> <l2:@R> <r2:@L> <sep:C?> <r3:@R> => {
-        let mut v = Vec::new();
-        let s = match sep {
-            None => String::new(),
-            Some(s) => s.to_string(),
-        };
-        v.push((Loc(ls, ls), e, Loc(l2, r2), s));
-        v
-    },
-    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepEndList<T, C>> => {
+    <v:TSepList<T, C>> => v,
+    <v:TSepList<T, C>> <l1:@R> <r1:@L> <sep:C> => {
         let mut v = v;
-        if !v.is_empty() {
-            v[0].0 = Loc(l2, r2);
+        if let Some(last) = v.last_mut() {
+            last.2 = Loc(l1, r1);
+            last.3 = sep.to_string();
         }
-        let s = sep.to_string();
-        v.insert(0, (Loc(ls, ls), e, Loc(l1, r1), s));
         v
     },
 };
-- 
2.43.0


From e871901e0c846735dcba3c01f661411174e195ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 28/30] fix: trying a list's indentation no longer copies all
 that has been written

---
 src/formatting/util.rs | 12 ++++++++++++
 src/parser/lua_ast.rs  | 30 ++++++++++++++++--------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index a7b6289..024c3cd 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -96,6 +96,18 @@ pub fn trim_end_spaces_and_tabs<'a>(string: &'a String) -> &'a str {
     string.trim_end_matches(|ch: char| return ch == ' ' || ch == '\t')
 }
 
+// writes something to the end of `f` and takes it back, without a copy of `f`
+pub fn write_and_take_back<T>(f: &mut String, write: impl FnOnce(&mut String) -> T) -> T {
+    // a new line removes the blanks before it
+    let blanks = f[trim_end_spaces_and_tabs(f).len()..].to_string();
+    let len = f.len() - blanks.len();
+
+    let result = write(f);
+    f.truncate(len);
+    f.push_str(&blanks);
+    result
+}
+
 pub fn get_len_after_newline(s: &str, _cfg: &Config) -> usize {
     return s.chars().rev().take_while(|&c| c != '\n').count();
 }
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index f02da23..eba5c54 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -445,12 +445,13 @@ impl Node {
             Node::VarSuffixList(_, suffs) => match suffs.len() {
                 0 => false,
                 _ => {
-                    let mut test_f = f.clone();
                     let mut test_state = state.clone();
-                    cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
-                    cfg.fmt.indent_var_suffix == Some(true)
-                        && (cfg.fmt.indent_one_line_var_suffix == Some(true)
-                            || cfg_write_list(&mut test_f, cfg, buf, &mut test_state, self) == Ok(true))
+                    util::write_and_take_back(f, |f| {
+                        cfg_write!(f, cfg, buf, &mut test_state, hint)?;
+                        Ok(cfg.fmt.indent_var_suffix == Some(true)
+                            && (cfg.fmt.indent_one_line_var_suffix == Some(true)
+                                || cfg_write_list(f, cfg, buf, &mut test_state, self) == Ok(true)))
+                    })?
                 }
             },
             Node::ExpList(_, exprs) => match exprs.len() {
@@ -460,22 +461,23 @@ impl Node {
                     cfg.fmt.indent_exp_list == Some(true) && cfg.fmt.indent_one_line_exp_list == Some(true)
                 }
                 _ => {
-                    let mut test_f = f.clone();
                     let mut test_state = state.clone();
-                    cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
-                    cfg.fmt.indent_exp_list == Some(true)
-                        && (cfg.fmt.indent_one_line_exp_list == Some(true)
-                            || cfg_write_sep_list(&mut test_f, cfg, buf, &mut test_state, self) == Ok(true))
+                    util::write_and_take_back(f, |f| {
+                        cfg_write!(f, cfg, buf, &mut test_state, hint)?;
+                        Ok(cfg.fmt.indent_exp_list == Some(true)
+                            && (cfg.fmt.indent_one_line_exp_list == Some(true)
+                                || cfg_write_sep_list(f, cfg, buf, &mut test_state, self) == Ok(true)))
+                    })?
                 }
             },
             Node::Fields(_, fields, _) => match fields.len() {
                 0 => false,
                 _ => {
-                    let mut test_f = f.clone();
                     let mut test_state = state.clone();
-                    cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
-
-                    cfg_write_sep_list(&mut test_f, cfg, buf, &mut test_state, self) == Ok(true)
+                    util::write_and_take_back(f, |f| {
+                        cfg_write!(f, cfg, buf, &mut test_state, hint)?;
+                        Ok(cfg_write_sep_list(f, cfg, buf, &mut test_state, self) == Ok(true))
+                    })?
                 }
             },
             _ => false,
-- 
2.43.0


From a9096e4d0a12c88065c2b33258649070c143ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 29/30] fix: no hint is written for a comment that is removed

---
 src/parser/comment_ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 846da1f..c48f793 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -43,8 +43,9 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
         use Node::*;
         match self {
             MultiLineComment(_, _, _) | OneLineComment(_, _) => match cfg.fmt.hint_before_comment.as_ref() {
-                Some(s) => s,
-                None => "",
+                // a removed comment needs no hint
+                Some(s) if cfg.fmt.remove_comments != Some(true) => s,
+                _ => "",
             },
             _ => "",
         }
-- 
2.43.0


From 2238f1a29e6bc279c45f95add9fcebb3bf9f7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 30/30] fix: strings of a configuration file have the value
 that they have in Lua

---
 src/config.rs          | 15 +++++++++++---
 src/formatting/util.rs | 45 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b1c97b4..a67050c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -6,6 +6,7 @@ use std::path::PathBuf;
 use std::collections::HashMap;
 use std::rc::Rc;
 
+use crate::formatting::util;
 use crate::parser;
 
 #[macro_export]
@@ -282,9 +283,17 @@ impl Config {
             VarsExprs(_, _, varlist, exprlist) => match (&**varlist, &**exprlist) {
                 (VarList(_, vars), ExpList(_, exprs)) => match (vars.iter().next(), exprs.iter().next()) {
                     (Some((_, var, _, _)), Some((_, expr, _, _))) => match (var, expr) {
-                        (Name(_, str_name), Numeral(_, str_expr))
-                        | (Name(_, str_name), NormalStringLiteral(_, str_expr))
-                        | (Name(_, str_name), CharStringLiteral(_, str_expr)) => self.set(str_name, str_expr),
+                        (Name(_, str_name), Numeral(_, str_expr)) => self.set(str_name, str_expr),
+                        (Name(_, str_name), NormalStringLiteral(_, str_expr))
+                        | (Name(_, str_name), CharStringLiteral(_, str_expr)) => match util::unescape(str_expr) {
+                            Some(value) => self.set(str_name, &value),
+                            None => eprintln!("Invalid `{}` option value `{}`", str_name, str_expr),
+                        },
+                        (Name(_, str_name), MultiLineStringLiteral(_, _, str_expr)) => {
+                            // a line break right after the opening bracket is no part of the string
+                            let first_line_break = ["\r\n", "\n"].iter().find(|s| str_expr.starts_with(**s));
+                            self.set(str_name, &str_expr[first_line_break.map_or(0, |s| s.len())..])
+                        }
 
                         (Name(_, str_name), True(..)) => self.set(str_name, "true"),
                         (Name(_, str_name), False(..)) => self.set(str_name, "false"),
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 024c3cd..db5dc19 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -131,6 +131,51 @@ pub fn separate_minus_from_comment(f: &mut String, comment_block: &str) {
     }
 }
 
+// the value of a quoted string; None if it is not valid or not UTF-8
+pub fn unescape(s: &str) -> Option<String> {
+    let mut result: Vec<u8> = Vec::new();
+    let mut rest = s;
+
+    while let Some(pos) = rest.find('\\') {
+        result.extend_from_slice(rest[..pos].as_bytes());
+        rest = &rest[pos + 1..];
+
+        let ch = rest.chars().next()?;
+        rest = &rest[ch.len_utf8()..];
+        match ch {
+            'a' => result.push(7),
+            'b' => result.push(8),
+            'f' => result.push(12),
+            'n' => result.push(b'\n'),
+            'r' => result.push(b'\r'),
+            't' => result.push(b'\t'),
+            'v' => result.push(11),
+            '\\' | '"' | '\'' | '\n' => result.push(ch as u8),
+            'z' => rest = rest.trim_start_matches(|ch: char| ch.is_ascii_whitespace() || ch == '\x0b'),
+            'x' => {
+                result.push(u8::from_str_radix(rest.get(..2)?, 16).ok()?);
+                rest = &rest[2..];
+            }
+            'u' => {
+                let end = rest.find('}')?;
+                let code = u32::from_str_radix(rest[..end].strip_prefix('{')?, 16).ok()?;
+                result.extend_from_slice(std::char::from_u32(code)?.to_string().as_bytes());
+                rest = &rest[end + 1..];
+            }
+            '0'..='9' => {
+                rest = &s[s.len() - rest.len() - 1..];
+                let len = rest.chars().take(3).take_while(|ch| ch.is_ascii_digit()).count();
+                result.push(rest[..len].parse().ok()?);
+                rest = &rest[len..];
+            }
+            _ => return None,
+        }
+    }
+    result.extend_from_slice(rest.as_bytes());
+
+    String::from_utf8(result).ok()
+}
+
 pub fn charstring_to_normalstring(s: &str) -> String {
     let mut result = String::new();
     let mut escaped = false;
-- 
2.43.0

