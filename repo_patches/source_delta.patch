From 5fdf092341e6b3d11dd1a6262499cf7aa5028c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/29] fix: report number literals that don't fit instead of
 panicking

---
 src/lexer.rs | 70 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..90ce216 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -309,28 +309,48 @@ fn clean_str(string: &str) -> String {
     String::from_utf8(result).unwrap()
 }
 
+enum Convert {
+    Total(fn(&str) -> TokenType),
+    // For tokens whose text matches, but may not have a representable value.
+    Partial(fn(&str) -> Option<TokenType>),
+}
+
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: Convert,
 }
 
 impl Matcher {
     pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
-            convert: convert,
+            convert: Convert::Total(convert),
+        }
+    }
+
+    pub fn partial(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
+        Matcher {
+            regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
+            convert: Convert::Partial(convert),
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// Returns `None` if the matcher doesn't apply to the input, and
+    /// `Some(None)` if it does, but the text is not a valid token.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
-                let convert = &self.convert;
-                let token_type = convert(capture);
+                let token_type = match self.convert {
+                    Convert::Total(convert) => convert(capture),
+                    Convert::Partial(convert) => match convert(capture) {
+                        Some(token_type) => token_type,
+                        None => return Some(None),
+                    },
+                };
                 let new_input = input.update(capture.len());
                 let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(Some((new_input, Token::new(token_type, span))))
             }
             None => None,
         }
@@ -398,24 +418,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -469,12 +489,12 @@ fn read_token<'a>(
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
                 Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
-                Matcher::new(hex_num, |text| to_hex_num(text, 1)),
-                Matcher::new(oct_num, |text| to_oct_num(text)),
-                Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
-                Matcher::new(bin_num, |text| to_bin_num(text, 1)),
-                Matcher::new(bin_num2, |text| to_bin_num(text, 2)),
-                Matcher::new(dec_num, |text| to_dec_num(text)),
+                Matcher::partial(hex_num, |text| to_hex_num(text, 1)),
+                Matcher::partial(oct_num, |text| to_oct_num(text)),
+                Matcher::partial(hex_num2, |text| to_hex_num(text, 2)),
+                Matcher::partial(bin_num, |text| to_bin_num(text, 1)),
+                Matcher::partial(bin_num2, |text| to_bin_num(text, 2)),
+                Matcher::partial(dec_num, |text| to_dec_num(text)),
             ]
         };
     }
@@ -486,7 +506,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(result) => return result,
             }
         }
         None
-- 
2.43.0


From 7a003afa75f9075200fd39b444436b2a7e53841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/29] fix: report the location of an unexpected character,
 not of the token before it

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 90ce216..aba0068 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -527,7 +527,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From 246224c504c4af932a5e5c0ef46e5bcc46b0cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/29] fix: wrap 32 bit expression arithmetic instead of
 panicking on overflow

---
 src/expression.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..beac0f0 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -479,10 +479,16 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => Ok(left
+                .eval(name_lookup)?
+                .wrapping_add(right.eval(name_lookup)?)),
+            Expr::Minus(_, left, right) => Ok(left
+                .eval(name_lookup)?
+                .wrapping_sub(right.eval(name_lookup)?)),
+            Expr::UnaryMinus(_, expr) => Ok(expr.eval(name_lookup)?.wrapping_neg()),
+            Expr::Times(_, left, right) => Ok(left
+                .eval(name_lookup)?
+                .wrapping_mul(right.eval(name_lookup)?)),
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +498,7 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    Ok(left_val.wrapping_div(right_val))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
-- 
2.43.0


From 9bb4ae17cb07e88f172f476a5b22116382b02c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 04/29] fix: make progress past a token that ends within a
 grapheme

---
 src/input.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..594a410 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -91,6 +91,11 @@ impl<'b> Input<'b> {
             match graphemes.next() {
                 Some(text) => {
                     if (input.pos - start) + text.len() > num_bytes {
+                        // The text being skipped ends within a grapheme.
+                        if start + num_bytes > input.pos {
+                            input.pos = start + num_bytes;
+                            input.column += 1;
+                        }
                         break;
                     }
                     input.pos += text.len();
-- 
2.43.0


From 059826d00f2ef6f1394478e6b39261e2ee1b5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 05/29] fix: accept non-ASCII text in C header comments

---
 src/cheader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..6a49180 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -12,7 +12,7 @@ fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let mut skipped = 0;
     if text.starts_with("/*") {
         skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
+        while skipped < text.len() && !text.as_bytes()[skipped..].starts_with(b"*/") {
             skipped = skipped + 1;
         }
         if text[skipped..].starts_with("*/") {
-- 
2.43.0


From 232f997910138af5c7e5cc6989c0bef083c4b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 06/29] fix: don't substitute a macro's own args and labels
 into its caller's arguments

---
 src/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index beac0f0..7d9443a 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -191,8 +191,14 @@ impl Expr {
                         Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
                             span.with_parent(expr.span()),
                         )),
+                        // The argument belongs to the caller, so this macro's
+                        // own labels and args don't apply to it.
                         Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
+                            .replace_macro_args(
+                                inv_span.clone(),
+                                &HashMap::new(),
+                                &HashMap::new(),
+                            )?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
-- 
2.43.0


From d891fb11b4fd70850f7b165bb3baaf36a1a03a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/29] fix: report recursive macros instead of overflowing the
 stack

---
 src/asm.rs | 11 ++++++++++-
 src/lib.rs | 10 ++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..5d350a7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -452,6 +452,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    RecursiveMacro(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -702,7 +703,8 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut stmts =
+                    expand(statements, span.clone(), name.to_owned(), args, &mut vec![])?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -775,8 +777,12 @@ fn expand(
     span: Span,
     name: String,
     args: &[Arg],
+    expanding: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
+    if expanding.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span.clone(), name.clone()));
+    }
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
         None => {
@@ -802,6 +808,7 @@ fn expand(
         argmap
     };
     let labels = gen_labels(macrodef.body())?;
+    expanding.push(ident);
     let mut statements = vec![];
     for stmt in macrodef.body().iter() {
         use crate::ast::MacroStatement::*;
@@ -816,6 +823,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            expanding,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -848,6 +856,7 @@ fn expand(
             }
         }
     }
+    expanding.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..20d47de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -943,6 +943,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("Macro ")
+                .cyan()
+                .write(name)
+                .reset()
+                .writeln(" expands to a call to itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         InvalidIconSize(path, w, h) => {
             stderr
                 .write("Invalid icon size in ")
-- 
2.43.0


From 2cf1219f4dbcd2d12db282227a35e7b977aca68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/29] fix: report include cycles instead of overflowing the
 stack

---
 src/asm.rs | 23 ++++++++++++++++++++---
 src/lib.rs | 10 ++++++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 5d350a7..1fe7d6e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,7 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
@@ -48,18 +48,24 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        let mut including = vec![canonical_path(&filename)];
+        replace_includes(&filename, &parser, &mut files, &tokens, &mut including)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
     Ok(stmts)
 }
 
+fn canonical_path(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 fn replace_includes(
     filename: &Path,
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    including: &mut Vec<PathBuf>,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -71,8 +77,16 @@ fn replace_includes(
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
+                            let included = canonical_path(&path);
+                            if including.contains(&included) {
+                                return Err(AssemblyError::RecursiveInclude(
+                                    span,
+                                    path.display().to_string(),
+                                ));
+                            }
+                            including.push(included);
                             let file = files.load(Some(filename), &path)?;
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
@@ -83,7 +97,9 @@ fn replace_includes(
                                 parser,
                                 files,
                                 &new_tokens,
+                                including,
                             )?;
+                            including.pop();
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
                             }
@@ -393,6 +409,7 @@ pub enum AssemblyError {
     NameAlreadyExists(Span, Span, String),
     InvalidCodeLocation(Span, i32),
     InvalidPath(Span, Expr),
+    RecursiveInclude(Span, String),
     InvalidIconSize(String, usize, usize),
     InvalidPaletteSize(String, usize, usize),
     SpriteTooWide(Span, String, usize, usize),
diff --git a/src/lib.rs b/src/lib.rs
index 20d47de..d635214 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -993,6 +993,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveInclude(span, path) => {
+            stderr
+                .write("File ")
+                .cyan()
+                .write(path)
+                .reset()
+                .writeln(" includes itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         InvalidSpriteType(span, typ) => {
             stderr
                 .write("Invalid sprite type: ")
-- 
2.43.0


From d030474ed7b8ec9b16de20f4801543dd4202779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 09/29] fix: keep consecutive includes of a one-line file apart

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..06ba86a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -54,7 +54,10 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_line = self.tokens[start].span().end().line();
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
+            // The end of an included file ends its last line, even if the
+            // next tokens come from the same line of the same file.
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From 22f576c2779a90ad7998b8c43f5e8998012ba3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 10/29] fix: make expand's output assemble to the same bytes

---
 src/asm.rs        | 10 ++++++----
 src/ast.rs        | 24 ++++++------------------
 src/expression.rs |  2 +-
 3 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 1fe7d6e..c41f6f4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -168,10 +168,12 @@ fn replace_byte_includes(
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
                     }
-                    results.push(Statement::Directive(Directive::Byte(
-                        span.clone(),
-                        byte_vals,
-                    )));
+                    if !byte_vals.is_empty() {
+                        results.push(Statement::Directive(Directive::Byte(
+                            span.clone(),
+                            byte_vals,
+                        )));
+                    }
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..2cbc252 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -366,10 +366,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -612,10 +612,10 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
+            // \" and \\
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current);
             }
 
             // \b
@@ -624,12 +624,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -648,12 +642,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
diff --git a/src/expression.rs b/src/expression.rs
index 7d9443a..4f5450e 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -414,7 +414,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:04o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From abf33831181ac735745b1839d33c3d14890797ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 11/29] fix: make disassembler output assemble to the original
 file

---
 src/disasm.rs | 59 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..1d116f3 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -18,10 +18,15 @@ pub fn disassemble(
     entry_points: &[usize],
     bytes: &[u8],
 ) -> Result<DStatements, DisasmError> {
-    let (graph, names) = {
+    let (graph, names, unencodable) = {
         let graph = build_instruction_graph(entry_points, bytes)?;
         let names = build_names(&graph);
-        (graph.lift_instrs(lift_instr, &names), names)
+        let unencodable = unencodable_instrs(&graph);
+        (
+            graph.lift_instrs(lift_instr, &names),
+            names,
+            unencodable,
+        )
     };
     let entry_points = {
         let mut results: HashSet<usize> = HashSet::new();
@@ -35,12 +40,15 @@ pub fn disassemble(
     let mut written_mask = vec![false; bytes.len()];
 
     let mut stmts = DStatements::new();
+    // Where the assembler will be after the statements so far.
+    let mut asm_pos = 0;
     let mut pos = 0;
     while pos < bytes.len() {
         if entry_points.contains(&pos) {
             stmts.push_comment("");
             stmts.push_comment("Entry point");
             stmts.push_org(pos);
+            asm_pos = pos;
         }
 
         if let Some(instr) = graph.instrs().get(&pos) {
@@ -48,8 +56,12 @@ pub fn disassemble(
                 stmts.push_comment("");
                 if !written_mask[pos - 1] {
                     stmts.push_org(pos);
+                    asm_pos = pos;
                 }
             }
+            if asm_pos != pos {
+                stmts.push_org(pos);
+            }
             if names.contains_label(pos) {
                 stmts.push_label(names.label(pos).unwrap());
             }
@@ -88,9 +100,14 @@ pub fn disassemble(
             } else {
                 None
             };
-            match comment {
-                Some(cmt) => stmts.push_instr_cmt(pos, instr.clone(), cmt),
-                None => stmts.push_instr(pos, instr.clone()),
+            asm_pos = pos + instr.size();
+            if unencodable.contains(&pos) {
+                stmts.push_bytes(pos, &bytes[pos..asm_pos]);
+            } else {
+                match comment {
+                    Some(cmt) => stmts.push_instr_cmt(pos, instr.clone(), cmt),
+                    None => stmts.push_instr(pos, instr.clone()),
+                }
             }
             pos = pos + 1;
         } else {
@@ -104,8 +121,13 @@ pub fn disassemble(
                     if pos > 0 && !written_mask[pos - 1] && !mask[pos - 1] {
                         stmts.push_comment("");
                         stmts.push_org(pos);
+                        asm_pos = pos;
+                    }
+                    if asm_pos != pos {
+                        stmts.push_org(pos);
                     }
                     stmts.push_bytes(pos, chunk);
+                    asm_pos = pos + chunk.len();
                     for (idx, _) in chunk.iter().enumerate() {
                         written_mask[pos + idx] = true;
                     }
@@ -119,7 +141,7 @@ pub fn disassemble(
     }
 
     stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    stmts.push_cnop(0, bytes.len());
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
@@ -204,6 +226,8 @@ fn build_names(graph: &InstructionGraph<i32, u8>) -> Names {
     compute_bit_aliases(&mut names);
     compute_aliases(&mut names);
     compute_labels(graph, &mut names);
+    // Only instructions get label definitions in the output.
+    names.labels.retain(|pos, _| graph.contains_instr(*pos));
     names
 }
 
@@ -735,6 +759,29 @@ fn lift_instr(
     }
 }
 
+// Finds the relative branches out of the address space, which can't be
+// written as instructions.
+fn unencodable_instrs(graph: &InstructionGraph<i32, u8>) -> HashSet<usize> {
+    use crate::instruction::Instr::*;
+    let mut results = HashSet::new();
+    for (pos, instr) in graph.instrs() {
+        let next = pos + instr.size();
+        let target = match instr {
+            Br(rel) | Bz(rel) | Bnz(rel) => rel8(*rel, next),
+            Bp(_, _, rel) | Bpc(_, _, rel) | Bn(_, _, rel) => rel8(*rel, next),
+            Dbnz_d9(_, rel) | Dbnz_Ri(_, rel) => rel8(*rel, next),
+            Be_i8(_, rel) | Be_d9(_, rel) | Be_Rj(_, _, rel) => rel8(*rel, next),
+            Bne_i8(_, rel) | Bne_d9(_, rel) | Bne_Rj(_, _, rel) => rel8(*rel, next),
+            Brf(rel) | Callr(rel) => rel16(*rel, next),
+            _ => continue,
+        };
+        if target > 0xFFFF {
+            results.insert(*pos);
+        }
+    }
+    results
+}
+
 fn rel16(rel: i32, next: usize) -> usize {
     (rel + (next as i32) - 1) as usize
 }
-- 
2.43.0


From 416f95a6447f227f69d64e3fca0e3bdb8d16f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 12/29] fix: list every instruction that overlaps the start of
 another

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 1d116f3..93ab4ba 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1114,7 +1114,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0


From 88c617b7759e3886ba1808cc9ddaa42e83abb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 13/29] fix: report code positions that don't fit instead of
 panicking

---
 src/asm.rs | 15 +++++++++++----
 src/ast.rs |  6 +++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index c41f6f4..e4b4a1a 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -613,6 +613,13 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+fn advance(pos: i32, size: i32, statement: &Statement) -> Result<i32, AssemblyError> {
+    match pos.checked_add(size) {
+        Some(new_pos) if new_pos < std::i32::MAX => Ok(new_pos),
+        _ => Err(AssemblyError::InvalidCodeLocation(statement.span(), pos)),
+    }
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -622,7 +629,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, statement)?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -642,7 +649,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                 }
             }
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement)?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -669,10 +676,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, statement)?,
             Label(_, _name) => (),
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement)?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
diff --git a/src/ast.rs b/src/ast.rs
index 2cbc252..498c398 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -252,14 +252,14 @@ impl Directive {
         if multiple == 0 {
             Ok(add)
         } else {
-            let mut mult = 0;
+            let mut mult: i32 = 0;
             loop {
                 if pos <= mult {
                     break;
                 }
-                mult = mult + multiple;
+                mult = mult.saturating_add(multiple);
             }
-            Ok(mult + add)
+            Ok(mult.saturating_add(add))
         }
     }
 
-- 
2.43.0


From ae4b0ef47e4262408a774e97db9cf35d0fb69ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 14/29] fix: report VMS files that are too short for a VMI
 instead of panicking

---
 src/disasm.rs | 1 +
 src/lib.rs    | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 93ab4ba..3c1baa7 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -10,6 +10,7 @@ use std::collections::HashSet;
 pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
+    FileTooShort(String, usize),
     UnknownFileType(String),
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index d635214..704d87d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -382,7 +382,9 @@ fn generate_vmi(
 
     // Copy description field from VMS file
     for idx in 0..32usize {
-        bytes[0x4 + idx] = vms_bytes[offset + 0x10 + idx];
+        bytes[0x4 + idx] = *vms_bytes
+            .get(offset + 0x10 + idx)
+            .ok_or_else(|| DisasmError::FileTooShort(input_file.to_string(), vms_bytes.len()))?;
     }
 
     // Write copyright notice
-- 
2.43.0


From 93e3b62a2202d2286fd74f9ac09fd3e03703d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 15/29] fix: report invalid icon speeds instead of panicking

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 704d87d..a1c1588 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,7 +159,18 @@ pub fn run_command(args: &[String]) {
     } else if let Some(matches) = matches.subcommand_matches("icon") {
         use img::IconError;
         let input_file = matches.value_of("INPUT").unwrap();
-        let animation_speed = matches.value_of("SPEED").map(|s| s.parse::<u16>().unwrap());
+        let animation_speed = match matches.value_of("SPEED").map(|s| s.parse::<u16>()) {
+            Some(Ok(speed)) => Some(speed),
+            Some(Err(err)) => {
+                stderr
+                    .write_error()
+                    .space()
+                    .write("Invalid animation speed: ")
+                    .writeln(err);
+                std::process::exit(1);
+            }
+            None => None,
+        };
         let eyecatch_file = matches.value_of("EYECATCH");
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
-- 
2.43.0


From 39afd6c25baa75b052e29b5dcfa5842384e390b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 16/29] fix: report images that can't be loaded instead of
 panicking

---
 src/lib.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1c1588..d78d450 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,9 +236,33 @@ pub fn run_command(args: &[String]) {
         let input_file = matches.value_of("INPUT").unwrap();
         let format = img::ImageFormat::from(matches.value_of("format").unwrap_or(""))
             .unwrap_or(img::ImageFormat::Asm1Bit);
-        let image = img::load_image(input_file).unwrap();
+        use img::{ImageFormat, ImageLoadError};
+        let image = match img::load_image(input_file) {
+            Ok(image) => image,
+            Err(ImageLoadError::FileLoadFailure(filename, err)) => {
+                stderr
+                    .write("Error loading file ")
+                    .cyan()
+                    .write(filename)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+            Err(ImageLoadError::ImageParseError(filename, err)) => {
+                stderr
+                    .write("Error parsing image ")
+                    .cyan()
+                    .write(filename)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+        };
 
-        use img::ImageFormat;
         let serialized = match format {
             ImageFormat::Json => serde_json::to_string(&image).unwrap(),
             ImageFormat::JsonPretty => serde_json::to_string_pretty(&image).unwrap(),
-- 
2.43.0


From bedb593961a0fe85a64a537c5594da42d9446952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 17/29] fix: report output files that can't be written instead
 of panicking

---
 src/asm.rs    |  1 +
 src/disasm.rs |  1 +
 src/lib.rs    | 48 ++++++++++++++++++++++++++++++++++++------------
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index e4b4a1a..9d9b248 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -459,6 +459,7 @@ pub enum AssemblyError {
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
diff --git a/src/disasm.rs b/src/disasm.rs
index 3c1baa7..79965d9 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -11,6 +11,7 @@ pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
     FileTooShort(String, usize),
+    FileWriteFailure(String, std::io::Error),
     UnknownFileType(String),
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index d78d450..d01e244 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -272,8 +272,19 @@ pub fn run_command(args: &[String]) {
 
         match matches.value_of("OUTPUT") {
             Some(output) => {
-                let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                let result = File::create(output)
+                    .and_then(|mut outfile| outfile.write_all(serialized.as_bytes()));
+                if let Err(err) = result {
+                    stderr
+                        .write("Error writing file ")
+                        .cyan()
+                        .write(output)
+                        .reset()
+                        .write(": ")
+                        .writeln(err)
+                        .newline();
+                    std::process::exit(1);
+                }
             }
             None => {
                 println!("{}", serialized);
@@ -504,8 +515,9 @@ fn generate_vmi(
         Weekday::Sat => 6,
     };
 
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    File::create(output_file)
+        .and_then(|mut outfile| outfile.write_all(&bytes))
+        .map_err(|e| DisasmError::FileWriteFailure(output_file.to_string(), e))?;
 
     Ok(())
 }
@@ -543,20 +555,21 @@ fn disassemble_cmd(
     };
     let statements = disasm::disassemble(arrived_from, &entry_points, &bytes)?;
 
-    let mut outfile = File::create(output_file).unwrap();
+    let write_error = |e| DisasmError::FileWriteFailure(output_file.to_string(), e);
+    let mut outfile = File::create(output_file).map_err(write_error)?;
     for dstmt in statements.to_vec() {
         if positions {
             if let Some(pos) = dstmt.pos() {
-                write!(outfile, "{:04X}| ", pos).unwrap();
+                write!(outfile, "{:04X}| ", pos).map_err(write_error)?;
             } else {
-                write!(outfile, "    | ").unwrap();
+                write!(outfile, "    | ").map_err(write_error)?;
             }
         }
-        write!(outfile, "{}", dstmt.statement()).unwrap();
+        write!(outfile, "{}", dstmt.statement()).map_err(write_error)?;
         if let Some(comment) = dstmt.cmt() {
-            write!(outfile, " ; {}", comment).unwrap();
+            write!(outfile, " ; {}", comment).map_err(write_error)?;
         }
-        writeln!(outfile, "").unwrap();
+        writeln!(outfile, "").map_err(write_error)?;
     }
 
     Ok(())
@@ -578,8 +591,9 @@ fn assemble_cmd(
     let input_file = matches.value_of("INPUT").unwrap();
     let bytes = asm::assemble_file(&mut files, input_file)?;
     let output_file = matches.value_of("OUTPUT").unwrap();
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    File::create(output_file)
+        .and_then(|mut outfile| outfile.write_all(&bytes))
+        .map_err(|err| AssemblyError::FileWriteFailure(output_file.to_string(), err))?;
 
     stderr
         .write_ok()
@@ -874,6 +888,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .writeln(err)
                 .newline();
         }
+        FileWriteFailure(file, err) => {
+            stderr
+                .write("Error writing file ")
+                .cyan()
+                .write(file)
+                .reset()
+                .write(": ")
+                .writeln(err)
+                .newline();
+        }
         FileUtf8Error(file, err) => {
             stderr
                 .write("UTF-8 Error loading file ")
-- 
2.43.0


From 584e79015e335900051cacefc69317c75e5af264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 18/29] fix: find the end of the last line when printing source
 lines

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d01e244..aea7ef4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1265,8 +1265,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From d2d350a1ac4e3d3ad7eb1841cd574e9657c05621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 19/29] fix: report tokens after a C header include instead of
 dropping them

---
 src/asm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 9d9b248..ff03170 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -114,6 +114,9 @@ fn replace_includes(
                                 cheader::lex_input(&input)?
                             };
                             results.append(&mut new_tokens);
+                            if !stream.is_empty() {
+                                return Err(AssemblyError::UnexpectedToken(stream.next()?));
+                            }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
                             for token in line.iter() {
-- 
2.43.0


From adc6fb472d9a47166cad84b35a94dd7af645d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 20/29] fix: report icon speeds that don't fit instead of
 truncating them

---
 src/asm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index ff03170..c7a95b2 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -180,7 +180,16 @@ fn replace_byte_includes(
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-                        Some(expr) => Some(expr.eval(&HashMap::new())? as u16),
+                        Some(expr) => {
+                            let value = expr.eval(&HashMap::new())?;
+                            if value < 0 || value > (std::u16::MAX as i32) {
+                                return Err(AssemblyError::WordOutOfRange {
+                                    span: expr.span(),
+                                    value: value,
+                                });
+                            }
+                            Some(value as u16)
+                        }
                         None => None,
                     };
                     let eyecatch = match eyecatch_opt {
-- 
2.43.0


From 6b76f229e72c5de3c60d5a9dc1096fe22f3e69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 21/29] fix: find eyecatch images relative to the including
 file

---
 src/asm.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index c7a95b2..197d32f 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -119,7 +119,25 @@ fn replace_includes(
                             }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
+                            let eyecatch_span = match &typ {
+                                IncludeType::Icon(_, Some(ByteValue::String(span, _))) => {
+                                    Some(span)
+                                }
+                                _ => None,
+                            };
                             for token in line.iter() {
+                                if let (Some(span), TokenType::String(string)) =
+                                    (eyecatch_span, token.token_type())
+                                {
+                                    if span == token.span() {
+                                        let path = files.path(Some(filename), string);
+                                        results.push(Token::new(
+                                            TokenType::String(path.display().to_string()),
+                                            token.span().clone(),
+                                        ));
+                                        continue;
+                                    }
+                                }
                                 if let TokenType::String(string) = token.token_type() {
                                     if string == &original_path {
                                         results.push(Token::new(
-- 
2.43.0


From b2173ab7533b19569e40e9b36d401f91d7e4e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 22/29] fix: let .cnop move backward when the multiple is zero

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 197d32f..9c83eaa 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,7 +388,7 @@ fn generate_bytes(
                         panic!("There should be no .include directives left at this point")
                     }
                     Cnop(_, _add, _multiple) => {
-                        pos += dir.size(pos as i32)? as usize;
+                        pos = (pos as i32 + dir.size(pos as i32)?) as usize;
                     }
                 }
             }
-- 
2.43.0


From ff31cb7380456cdb5c0cfbb554ae70f588fd9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 23/29] fix: report output that can't be written to standard
 output

---
 src/asm.rs |  7 +++++--
 src/lib.rs | 34 ++++++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9c83eaa..23027e1 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,6 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
@@ -29,8 +30,10 @@ pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>,
 pub fn expand_file(files: &mut SourceFiles, filename: &str) -> Result<(), AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
-    println!("{}", statements);
-    Ok(())
+    let mut stdout = std::io::stdout();
+    writeln!(stdout, "{}", statements)
+        .and_then(|_| stdout.flush())
+        .map_err(|err| AssemblyError::FileWriteFailure("<stdout>".to_string(), err))
 }
 
 fn read_statements(
diff --git a/src/lib.rs b/src/lib.rs
index aea7ef4..652a891 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,15 +175,11 @@ pub fn run_command(args: &[String]) {
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
             Ok(stmts) => {
-                stdout
-                    .write(ast::Statement::comment(
-                        "NOTE: This file was generated by the waterbear assembler:",
-                    ))
-                    .write("\n");
-                stdout
-                    .write(ast::Statement::comment(&format!("{}", args.join(" "))))
-                    .write("\n");
-                stdout.write(stmts).write("\n");
+                let note = ast::Statement::comment(
+                    "NOTE: This file was generated by the waterbear assembler:",
+                );
+                let command = ast::Statement::comment(&format!("{}", args.join(" ")));
+                write_stdout(&format!("{}\n{}\n{}\n", note, command, stmts), &mut stderr);
             }
             Err(IconError::InvalidPaletteSize(p, psize, expected)) => {
                 stderr
@@ -287,7 +283,7 @@ pub fn run_command(args: &[String]) {
                 }
             }
             None => {
-                println!("{}", serialized);
+                write_stdout(&format!("{}\n", serialized), &mut stderr);
             }
         }
     } else if let Some(matches) = matches.subcommand_matches("vmi") {
@@ -391,6 +387,24 @@ pub fn run_command(args: &[String]) {
     }
 }
 
+fn write_stdout(text: &str, stderr: &mut ColorWriter) {
+    let mut stdout = std::io::stdout();
+    let result = stdout
+        .write_all(text.as_bytes())
+        .and_then(|_| stdout.flush());
+    if let Err(err) = result {
+        stderr
+            .write("Error writing file ")
+            .cyan()
+            .write("<stdout>")
+            .reset()
+            .write(": ")
+            .writeln(err)
+            .newline();
+        std::process::exit(1);
+    }
+}
+
 fn generate_vmi(
     input_file: &str,
     output_file: &str,
-- 
2.43.0


From 9006bb99c0214cba93faedf957f09409fafab9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 24/29] fix: report arguments that aren't valid UTF-8 instead
 of panicking

---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ca1e0af..23ac689 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,12 @@ extern crate waterbear;
 use std::env;
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
-    waterbear::run_command(&args);
+    let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
+    match args {
+        Ok(args) => waterbear::run_command(&args),
+        Err(arg) => {
+            eprintln!("ERROR: Argument is not valid UTF-8: {:?}", arg);
+            std::process::exit(1);
+        }
+    }
 }
-- 
2.43.0


From 2e6d18f98394f37eef679223c514d071323477e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:21 +0000
Subject: [PATCH 25/29] fix: use the real working directory instead of the PWD
 variable

---
 src/files.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index 7374d1b..92e736b 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -77,16 +77,8 @@ pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
 
 impl SourceFiles {
     pub fn new() -> SourceFiles {
-        let working_dir = match std::env::var_os("PWD") {
-            Some(pwd) => PathBuf::from(pwd),
-            None => std::env::current_dir().unwrap(),
-        };
         SourceFiles {
-            working_dir: if working_dir.is_absolute() {
-                working_dir
-            } else {
-                working_dir.canonicalize().unwrap()
-            },
+            working_dir: std::env::current_dir().unwrap_or_else(|_| PathBuf::from(".")),
             files: vec![],
         }
     }
-- 
2.43.0


From d260b8a842de5453b32d5231d32d1263dcce9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 26/29] fix: visit each position once when tracing code, so
 that disassembling doesn't hang

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 79965d9..2d79be4 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -978,7 +978,7 @@ fn build_instruction_graph(
         locs.append(&mut positions);
 
         for pos in locs.iter() {
-            if *pos == bytes.len() {
+            if *pos == bytes.len() || graph.contains_instr(*pos) {
                 continue;
             }
             if *pos > bytes.len() {
-- 
2.43.0


From a80e103ed764cc4f50de393238801e68bd11a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 27/29] fix: an animated picture without frames panicked

---
 src/img.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index 13e5a48..b78b603 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -2,6 +2,7 @@ use enum_iterator::Sequence;
 use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
+use image::error::{DecodingError, ImageError, ImageFormatHint};
 use image::AnimationDecoder;
 use image::{DynamicImage, GenericImageView, Rgba};
 use serde::{Deserialize, Serialize};
@@ -448,7 +449,7 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    match path.extension().and_then(OsStr::to_str) {
+    let image = match path.extension().and_then(OsStr::to_str) {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
         _ => {
@@ -456,7 +457,18 @@ pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
                 .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
             Ok(to_image(&image))
         }
+    }?;
+    if image.frames.is_empty() {
+        // An animation may hold no frame at all.
+        return Err(ImageLoadError::ImageParseError(
+            path.display().to_string(),
+            ImageError::Decoding(DecodingError::new(
+                ImageFormatHint::Unknown,
+                "the image has no frames",
+            )),
+        ));
     }
+    Ok(image)
 }
 
 fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
-- 
2.43.0


From a49a46db308a30474ee53f487dfed4c47ca8ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:51 +0000
Subject: [PATCH 28/29] fix: mark every line of a comment in printed source

---
 src/ast.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 498c398..14e2114 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -507,13 +507,15 @@ impl fmt::Display for Statement {
                 write!(f, "{} EQU {}", name, expr)
             }
             Statement::Comment(ref comment) => {
+                // A comment can name a file, and file names may contain
+                // newlines, so every line gets its own marker.
                 if comment.trim().is_empty() {
                     write!(f, "{}", comment)
                 } else if comment.starts_with("\n") {
                     writeln!(f, "")?;
-                    write!(f, "  ;; {}", &comment[1..comment.len()])
+                    write!(f, "  ;; {}", comment[1..].replace("\n", "\n  ;; "))
                 } else {
-                    write!(f, "  ;; {}", comment)
+                    write!(f, "  ;; {}", comment.replace("\n", "\n  ;; "))
                 }
             }
             Statement::MacroCall(_, name, args) => {
-- 
2.43.0


From 94484f9f916fc9235c211faa5965fe70d831bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:39 +0000
Subject: [PATCH 29/29] fix: look up a missing include in the working
 directory, not beside the main file

---
 src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/files.rs b/src/files.rs
index 92e736b..62cc781 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -139,7 +139,7 @@ impl SourceFiles {
                     filename.display()
                 );
                 eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
-                filename.to_path_buf()
+                self.working_dir.join(filename)
             }
         } else {
             self.working_dir.join(filename)
-- 
2.43.0

