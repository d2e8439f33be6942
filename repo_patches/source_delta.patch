From a5ba7c08af874d82bc996184d8d2cbeadb022e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 01/16] fix: compute token end positions from the encoded
 character length
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A token that ended with a multi-byte character (a line comment such as
'// ć') got an end position inside that character and slicing its text
panicked.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From 955d499e21b25ecad76d39ef2d5db78ec35c946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 02/16] fix: do not end a block comment at its opening asterisk

'/*/' was taken for a complete comment, so that '/*/ x */' was rejected.
---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..39bc484 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // Consume the opening asterisk, it cannot be a part of the closing mark
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From 36a1e4141eee64e653e4619b2835b36a68d74e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 03/16] fix: report an error instead of panicking when the
 source ends too early

Error recovery tried to consume a token at the end of the file, e.g. for
the source 'model'.
---
 src/parser/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..c52effa 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -236,6 +236,10 @@ impl<'a> Parser<'a> {
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
+        // There is nothing to consume at the end of the file
+        if self.eof() {
+            return;
+        }
         let mark = self.enter();
         self.advance();
         self.exit(mark, SyntaxKind::Error);
-- 
2.43.0


From 6e12dcaf4fc2bf58339041b978ad9a993f644966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/16] fix: report an error instead of panicking when the
 parser is stuck

Some erroneous sources (e.g. 'model A equation ) end A;') make the parser
look at the same token over and over. It now gives up with an error
message.
---
 src/parser/parsing.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index c52effa..3840ef0 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -28,6 +28,9 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
+    /// `true` if parser ran out of lifes. It then behaves as if there were no
+    /// more tokens.
+    stuck: Cell<bool>,
 }
 
 impl<'a> Parser<'a> {
@@ -126,6 +129,9 @@ impl<'a> Parser<'a> {
             SyntaxKind::AnnotationClause => annotation_clause(self),
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
+        if self.stuck.get() {
+            self.error(String::from("parser stuck"));
+        }
     }
 
     /// Return a new parser instance
@@ -138,6 +144,7 @@ impl<'a> Parser<'a> {
             errors: Vec::new(),
             pos: 0,
             lifes: Cell::new(100),
+            stuck: Cell::new(false),
         }
     }
 
@@ -162,21 +169,24 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file or cannot go any further
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.stuck.get() || self.pos == self.tokens.len()
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            self.stuck.set(true);
+        }
+        if self.stuck.get() {
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +194,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
-- 
2.43.0


From 036a45e5db437f2fef084b07e2bf6e55ee126be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 05/16] fix: check the whole text when parsing starts at
 another rule

Any text could follow a fragment or stand in place of a single operator,
an empty one made the parser or the formatter panic, and tokens left over
at the end hit the assertion in build_tree.
---
 src/parser/parsing.rs | 121 +++++++++++++++++++++++-------------------
 src/parser/tree.rs    |   3 ++
 2 files changed, 70 insertions(+), 54 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 3840ef0..e6fd60b 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -131,6 +131,9 @@ impl<'a> Parser<'a> {
         }
         if self.stuck.get() {
             self.error(String::from("parser stuck"));
+        } else if self.errors.is_empty() && !self.eof() {
+            // The text may not go on after the start rule
+            self.error(format!("unexpected token '{:?}'", self.nth(0)));
         }
     }
 
@@ -222,13 +225,12 @@ impl<'a> Parser<'a> {
                 self.name, tok.start.line, tok.start.col, msg
             ));
         } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
+            let (line, col) = self
+                .tokens
+                .last()
+                .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+            self.errors
+                .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
         }
     }
 
@@ -264,6 +266,26 @@ const SECTION_BREAKERS: [ModelicaToken; 8] = [
     ModelicaToken::Annotation,
     ModelicaToken::External,
 ];
+const RELOPS: [ModelicaToken; 6] = [
+    ModelicaToken::Les,
+    ModelicaToken::Leq,
+    ModelicaToken::Gre,
+    ModelicaToken::Geq,
+    ModelicaToken::Eq,
+    ModelicaToken::Neq,
+];
+const ADDOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Plus,
+    ModelicaToken::DotPlus,
+    ModelicaToken::Minus,
+    ModelicaToken::DotMinus,
+];
+const MULOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Star,
+    ModelicaToken::DotStar,
+    ModelicaToken::Slash,
+    ModelicaToken::DotSlash,
+];
 const CLASS_PREFS: [ModelicaToken; 13] = [
     ModelicaToken::Partial,
     ModelicaToken::Class,
@@ -417,7 +439,7 @@ fn der_class_specifier(p: &mut Parser) {
     type_specifier(p);
     p.expect(ModelicaToken::Comma);
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.expect(ModelicaToken::RParen);
@@ -436,7 +458,7 @@ fn base_prefix(p: &mut Parser) {
 fn enum_list(p: &mut Parser) {
     let mark = p.enter();
     enumeration_literal(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         enumeration_literal(p);
     }
     p.exit(mark, SyntaxKind::EnumList);
@@ -588,7 +610,7 @@ fn import_clause(p: &mut Parser) {
 fn import_list(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.exit(mark, SyntaxKind::ImportList);
@@ -636,7 +658,7 @@ fn argument_or_inheritance_modification_list(p: &mut Parser) {
     } else {
         argument(p);
     }
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         if p.check(ModelicaToken::Break) {
             inheritance_modification(p);
         } else {
@@ -687,7 +709,7 @@ fn type_prefix(p: &mut Parser) {
 fn component_list(p: &mut Parser) {
     let mark = p.enter();
     component_declaration(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         component_declaration(p);
     }
     p.exit(mark, SyntaxKind::ComponentList);
@@ -763,7 +785,7 @@ fn class_modification(p: &mut Parser) {
 fn argument_list(p: &mut Parser) {
     let mark = p.enter();
     argument(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         argument(p);
     }
     p.exit(mark, SyntaxKind::ArgumentList);
@@ -1040,7 +1062,7 @@ fn for_statement(p: &mut Parser) {
 fn for_indices(p: &mut Parser) {
     let mark = p.enter();
     for_index(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         for_index(p);
     }
     p.exit(mark, SyntaxKind::ForIndices);
@@ -1165,7 +1187,7 @@ fn simple_expression(p: &mut Parser) {
 fn logical_expression(p: &mut Parser) {
     let mark = p.enter();
     logical_term(p);
-    while p.consume(ModelicaToken::Or) && !p.eof() {
+    while p.consume(ModelicaToken::Or) {
         logical_term(p);
     }
     p.exit(mark, SyntaxKind::LogicalExpression);
@@ -1174,7 +1196,7 @@ fn logical_expression(p: &mut Parser) {
 fn logical_term(p: &mut Parser) {
     let mark = p.enter();
     logical_factor(p);
-    while p.consume(ModelicaToken::And) && !p.eof() {
+    while p.consume(ModelicaToken::And) {
         logical_factor(p);
     }
     p.exit(mark, SyntaxKind::LogicalTerm);
@@ -1188,14 +1210,6 @@ fn logical_factor(p: &mut Parser) {
 }
 
 fn relation(p: &mut Parser) {
-    const RELOPS: [ModelicaToken; 6] = [
-        ModelicaToken::Les,
-        ModelicaToken::Leq,
-        ModelicaToken::Gre,
-        ModelicaToken::Geq,
-        ModelicaToken::Eq,
-        ModelicaToken::Neq,
-    ];
     let mark = p.enter();
     arithmetic_expression(p);
     if p.check_any(&RELOPS) {
@@ -1207,19 +1221,15 @@ fn relation(p: &mut Parser) {
 
 fn relational_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `relation`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&RELOPS) {
+        p.advance();
+    } else {
+        p.error(format!("unexpected token '{:?}': not an operator", p.nth(0)));
+    }
     p.exit(mark, SyntaxKind::RelationalOperator);
 }
 
 fn arithmetic_expression(p: &mut Parser) {
-    const ADDOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Plus,
-        ModelicaToken::DotPlus,
-        ModelicaToken::Minus,
-        ModelicaToken::DotMinus,
-    ];
     let mark = p.enter();
     if p.check_any(&ADDOPS) {
         add_operator(p);
@@ -1234,19 +1244,15 @@ fn arithmetic_expression(p: &mut Parser) {
 
 fn add_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `arithmetic_expression`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&ADDOPS) {
+        p.advance();
+    } else {
+        p.error(format!("unexpected token '{:?}': not an operator", p.nth(0)));
+    }
     p.exit(mark, SyntaxKind::AddOperator);
 }
 
 fn term(p: &mut Parser) {
-    const MULOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Star,
-        ModelicaToken::DotStar,
-        ModelicaToken::Slash,
-        ModelicaToken::DotSlash,
-    ];
     let mark = p.enter();
     factor(p);
     while p.check_any(&MULOPS) && !p.eof() {
@@ -1258,9 +1264,11 @@ fn term(p: &mut Parser) {
 
 fn mul_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `term`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    if p.check_any(&MULOPS) {
+        p.advance();
+    } else {
+        p.error(format!("unexpected token '{:?}': not an operator", p.nth(0)));
+    }
     p.exit(mark, SyntaxKind::MulOperator);
 }
 
@@ -1293,7 +1301,7 @@ fn primary(p: &mut Parser) {
         ModelicaToken::LBracket => {
             p.advance();
             expression_list(p);
-            while p.consume(ModelicaToken::Semicolon) && !p.eof() {
+            while p.consume(ModelicaToken::Semicolon) {
                 expression_list(p);
             }
             p.expect(ModelicaToken::RBracket);
@@ -1350,7 +1358,7 @@ fn component_reference(p: &mut Parser) {
     if p.check(ModelicaToken::LBracket) {
         array_subscripts(p);
     }
-    while p.consume(ModelicaToken::Dot) && !p.eof() {
+    while p.consume(ModelicaToken::Dot) {
         p.expect(ModelicaToken::Identifier);
         if p.check(ModelicaToken::LBracket) {
             array_subscripts(p);
@@ -1479,13 +1487,18 @@ fn function_partial_application(p: &mut Parser) {
 fn output_expression_list(p: &mut Parser) {
     let mark = p.enter();
     // This production can only occur inside parentheses, so easiest way
-    // is to check for right paren
+    // is to check for right paren (or end, if it is the start rule)
+    const BREAKERS: [ModelicaToken; 3] = [
+        ModelicaToken::RParen,
+        ModelicaToken::Comma,
+        ModelicaToken::EOF,
+    ];
     if !p.check(ModelicaToken::RParen) {
-        if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
+        if !p.check_any(&BREAKERS) {
             expression(p);
         }
-        while p.consume(ModelicaToken::Comma) && !p.eof() {
-            if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
+        while p.consume(ModelicaToken::Comma) {
+            if !p.check_any(&BREAKERS) {
                 expression(p);
             }
         }
@@ -1496,7 +1509,7 @@ fn output_expression_list(p: &mut Parser) {
 fn expression_list(p: &mut Parser) {
     let mark = p.enter();
     expression(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         expression(p);
     }
     p.exit(mark, SyntaxKind::ExpressionList);
@@ -1506,7 +1519,7 @@ fn array_subscripts(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::LBracket);
     subscript(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         subscript(p);
     }
     p.expect(ModelicaToken::RBracket);
@@ -1533,7 +1546,7 @@ fn description(p: &mut Parser) {
 fn description_string(p: &mut Parser) {
     let mark = p.enter();
     if p.consume(ModelicaToken::String) {
-        while p.consume(ModelicaToken::Plus) && !p.eof() {
+        while p.consume(ModelicaToken::Plus) {
             p.expect(ModelicaToken::String);
         }
     }
diff --git a/src/parser/tree.rs b/src/parser/tree.rs
index 5d06c34..9865ff0 100644
--- a/src/parser/tree.rs
+++ b/src/parser/tree.rs
@@ -73,6 +73,9 @@ impl Tree {
     }
 
     pub fn is_multiline(&self) -> bool {
+        if self.len() == 0 {
+            return false;
+        }
         let first = self.start();
         let last = self.end();
         first.start.line < last.end.line
-- 
2.43.0


From b8b7c1ab490271e70d8528fb08c54f188960f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 06/16] fix: end the indentation of a wrapped left-hand side

The level opened by a wrap in the left-hand side of an equation or in the
output list of a statement was never closed, so everything after it was
shifted to the right.
---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..a6a8058 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1188,7 +1188,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1249,7 +1253,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From 7e9a7205105fab77da5e5015f7c20313c18ff71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/16] fix: wrap lists that contain a line break of their own
 at once

Descriptions and constraining clauses always start a new line, but
declaration lists and inheritance modifications containing one were wrapped
only when the formatted text was formatted again.
---
 src/formatter/formatting.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index a6a8058..47ac041 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -215,6 +215,13 @@ impl Formatter {
     }
 }
 
+/// Return `true` if the tree contains a node that always starts a new line
+fn is_wrapped_inside(tree: &Tree) -> bool {
+    tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn stored_definition(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
@@ -755,7 +762,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = tree.len() > 2 && (tree.is_multiline() || is_wrapped_inside(&tree));
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -847,7 +854,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = tree.is_multiline() || is_wrapped_inside(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -950,9 +957,7 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
 
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = tree.is_multiline() || is_wrapped_inside(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From 56a15a8a08e716ac9ec6b50c41bfd76677af46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 08/16] fix: count the lines of multi-line comments that follow
 code

A blank line was added after a multi-line comment starting at the end of a
code line when the text was formatted.
---
 src/formatter/formatting.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 47ac041..3bca8aa 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -142,19 +142,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
             self.markers.push(Marker::Token(comment.text));
+            line = comment.end.line;
         }
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
         }
-        let mut line = self.prev_line;
-        for comment in comments {
+        let is_commented = !comments.is_empty();
+        for (idx, comment) in comments.into_iter().enumerate() {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if idx > 0 {
                     if comment.start.line - line > 1 {
                         self.markers.push(Marker::Blank);
                     } else {
@@ -177,7 +179,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
+        } else if is_commented {
             if tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
-- 
2.43.0


From 24f34896e3494a2ed68192da9bc0c18fe09244c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 09/16] fix: keep comments at the start and at the end of a
 file

Comments before the first class were dropped unless the file started with
'within' or 'final', comments after the last class were dropped always, and
a leading line break was printed before 'final' and header comments.
---
 src/formatter/formatting.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 3bca8aa..8679322 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -126,7 +126,7 @@ impl Formatter {
             comments: comments.into_iter().peekable(),
             markers: Vec::new(),
             prev_tok: ModelicaToken::EOF,
-            prev_line: 1,
+            prev_line: 0,
         }
     }
 
@@ -188,6 +188,22 @@ impl Formatter {
         }
     }
 
+    /// Insert comments that are placed after the last token
+    fn handle_end(&mut self) {
+        let mut line = self.prev_line;
+        for comment in self.comments.by_ref() {
+            if comment.start.line == self.prev_line {
+                self.markers.push(Marker::Space);
+            } else if comment.start.line - line > 1 {
+                self.markers.push(Marker::Blank);
+            } else {
+                self.markers.push(Marker::Break);
+            }
+            self.markers.push(Marker::Token(comment.text));
+            line = comment.end.line;
+        }
+    }
+
     /// Return comments from before the specified token.
     /// First vector contains inline comments.
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
@@ -230,7 +246,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    if f.prev_tok != ModelicaToken::Final {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
@@ -241,7 +257,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
                 let kind = tok.kind;
                 if kind == ModelicaToken::Final {
                     f.handle_break(&tok, Blank::Legal);
-                } else if kind == ModelicaToken::Within && tok.idx > 0 {
+                } else if kind == ModelicaToken::Within {
                     f.handle_break(&tok, Blank::Illegal);
                 }
                 f.handle_token(tok);
@@ -251,6 +267,11 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.handle_end();
+    // The first line of the file must not be preceded by any other
+    if let Some(Marker::Break | Marker::Blank) = f.markers.first() {
+        f.markers.remove(0);
+    }
 }
 
 fn class_definition(f: &mut Formatter, tree: Tree) {
-- 
2.43.0


From 1efbc83b6e966ee85c4ffcdd7bf636f7b2403f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/16] fix: indent wrapped arguments of a function partial
 application

---
 src/formatter/formatting.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 8679322..d9bb16c 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -2103,9 +2103,12 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
                 let kind = tok.kind;
                 f.handle_token(tok);
                 if kind == ModelicaToken::LParen && is_multiline {
+                    f.markers.push(Marker::Indent);
                     if let Child::Tree(next_tree) = children.peek().unwrap() {
                         f.handle_break(next_tree.start(), Blank::Illegal);
                     }
+                } else if kind == ModelicaToken::RParen && is_multiline {
+                    f.markers.push(Marker::Dedent);
                 }
             }
         }
-- 
2.43.0


From bdcaf3479e44b2fd598c44e2c6f5ae7f4817a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 11/16] fix: make formatted fragments stable

Lists formatted on their own were wrapped around descriptions only when the
formatted text was formatted again, and some fragments started with white
space, which changed the place of comments in front of them.
---
 src/formatter/formatting.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index d9bb16c..1c6cb30 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,12 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    // The first line must not be preceded by anything
+    if let Some(idx) = f.markers.iter().position(|m| *m != Marker::Indent) {
+        if [Marker::Space, Marker::Break, Marker::Blank].contains(&f.markers[idx]) {
+            f.markers.remove(idx);
+        }
+    }
     f.markers
 }
 
@@ -268,10 +274,6 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
         }
     }
     f.handle_end();
-    // The first line of the file must not be preceded by any other
-    if let Some(Marker::Break | Marker::Blank) = f.markers.first() {
-        f.markers.remove(0);
-    }
 }
 
 fn class_definition(f: &mut Formatter, tree: Tree) {
@@ -474,7 +476,7 @@ fn base_prefix(f: &mut Formatter, tree: Tree) {
 
 fn enum_list(f: &mut Formatter, tree: Tree, mut is_multiline: bool) {
     if !is_multiline {
-        is_multiline = tree.is_multiline();
+        is_multiline = tree.is_multiline() || is_wrapped_inside(&tree);
     }
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
@@ -810,7 +812,7 @@ fn argument_or_inheritance_modification_list(
     mut is_multiline: bool,
 ) {
     if !is_multiline {
-        is_multiline = tree.is_multiline();
+        is_multiline = tree.is_multiline() || is_wrapped_inside(&tree);
     }
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
@@ -1001,7 +1003,7 @@ fn class_modification(f: &mut Formatter, tree: Tree) {
 
 fn argument_list(f: &mut Formatter, tree: Tree, mut is_multiline: bool) {
     if !is_multiline {
-        is_multiline = tree.is_multiline();
+        is_multiline = tree.is_multiline() || is_wrapped_inside(&tree);
     }
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
-- 
2.43.0


From c30dd9899c14b311b38e433c8b42060691cd9671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 12/16] fix: report I/O errors and go on with the other files

A file that could not be written or a directory that could not be read made
the tool panic and skip all remaining files.
---
 src/main.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..ee78a1b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
-use std::{env, fs};
+use std::{env, fs, io};
 
 const VERSION: &str = "0.6.0";
 
@@ -52,7 +52,7 @@ fn format_files(args: &[String], check: bool) {
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut code)
             } else {
                 vec![p]
             }
@@ -86,7 +86,10 @@ fn format_files(args: &[String], check: bool) {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
                     } else {
-                        write_file(p, output);
+                        if let Err(e) = write_file(p, output) {
+                            eprintln!("{}: error writing a file: {}", name, e);
+                            code = 1;
+                        }
                     }
                 }
             }
@@ -100,15 +103,29 @@ fn format_files(args: &[String], check: bool) {
 }
 
 /// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+///
+/// Report anything that cannot be read and set the exit code in such case
+fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
+    let mut report = |e: io::Error| {
+        eprintln!("{}: error reading from a directory: {}", dir.display(), e);
+        *code = 1;
+    };
+    let paths: Vec<PathBuf> = match fs::read_dir(&dir) {
+        Ok(entries) => entries
+            .filter_map(|e| e.map_err(&mut report).ok())
+            .map(|e| e.path())
+            .collect(),
+        Err(e) => {
+            report(e);
+            Vec::new()
+        }
+    };
     paths
-        .map(|e| e.unwrap().path())
+        .into_iter()
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, code)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
@@ -140,6 +157,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> io::Result<()> {
+    fs::write(to, code)
 }
-- 
2.43.0


From 6bc0d3a2a7109a3bf45cd21ca39640e35eb78b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:01 +0000
Subject: [PATCH 13/16] fix: accept paths that are not valid unicode

Any such argument made the tool panic before it processed the others.
---
 src/main.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ee78a1b..08f9822 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs, io};
@@ -19,24 +20,26 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    // Paths don't have to be valid unicode
+    let args: Vec<OsString> = env::args_os().collect();
+    let option = args.get(1).map_or("".into(), |a| a.to_string_lossy());
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
-    } else if ["-h", "--help"].contains(&args[1].as_str()) {
+    } else if ["-h", "--help"].contains(&option.as_ref()) {
         println!("{}", HELP);
         std::process::exit(0);
-    } else if ["-v", "--version"].contains(&args[1].as_str()) {
+    } else if ["-v", "--version"].contains(&option.as_ref()) {
         println!("mofmt, {}", VERSION);
         std::process::exit(0);
-    } else if args[1].as_str() == "--check" {
+    } else if option == "--check" {
         if args.len() < 3 {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
         format_files(&args[2..], true);
-    } else if args[1].starts_with('-') {
-        eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
+    } else if option.starts_with('-') {
+        eprintln!("Unrecognized option: '{}'.\n{}", option, HELP);
         std::process::exit(1);
     } else {
         format_files(&args[1..], false);
@@ -44,7 +47,7 @@ fn main() {
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut lock = stdout().lock();
-- 
2.43.0


From d301d1fa1ad91ccaafa2b9a81e58747aacd0b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 14/16] fix: do not take a letter after a number for an
 exponent without digits

---
 src/parser/lexing.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 39bc484..5da35e5 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -327,22 +327,33 @@ impl<'a> Lexer<'a> {
         self.lex_source();
     }
 
+    /// Consume the exponent of a numeral, unless there are no digits in it
+    fn accept_exponent(&mut self) -> bool {
+        let digit = match self.source[self.current.pos..].as_bytes() {
+            [b'e' | b'E', b'+' | b'-', c, ..] => c,
+            [b'e' | b'E', c, ..] => c,
+            _ => return false,
+        };
+        if !digit.is_ascii_digit() {
+            return false;
+        }
+        self.accept("eE");
+        self.accept("+-");
+        self.accept_digits();
+        true
+    }
+
     /// Scan the slice that is supposed to be a numeral
     fn lex_numeral(&mut self) {
         self.accept_digits();
         if !self.accept(".") {
-            if !self.accept("eE") {
+            if !self.accept_exponent() {
                 return self.generate_token(ModelicaToken::UInt);
             }
-            self.accept("+-");
-            self.accept_digits();
             return self.generate_token(ModelicaToken::UReal);
         }
         self.accept_digits();
-        if self.accept("eE") {
-            self.accept("+-");
-            self.accept_digits();
-        }
+        self.accept_exponent();
         self.generate_token(ModelicaToken::UReal)
     }
 
-- 
2.43.0


From b39970429d38d2a0c84188af1da36037a8a7543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:37 +0000
Subject: [PATCH 15/16] fix: accept equations that start with a call of initial

---
 src/parser/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index e6fd60b..51a14b4 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -884,7 +884,11 @@ fn equation_section(p: &mut Parser) {
     let mark = p.enter();
     p.consume(ModelicaToken::Initial);
     p.expect(ModelicaToken::Equation);
-    while !p.check_any(&SECTION_BREAKERS) && !p.eof() {
+    // `initial` does not start another section if it is a call
+    while (!p.check_any(&SECTION_BREAKERS)
+        || p.check(ModelicaToken::Initial) && p.nth(1) == ModelicaToken::LParen)
+        && !p.eof()
+    {
         equation(p);
         p.expect(ModelicaToken::Semicolon);
     }
-- 
2.43.0


From db3fd9b93c091e8ad39012aa4590849855b020cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:53 +0000
Subject: [PATCH 16/16] fix: no misleading diagnostics once the parser is stuck

---
 src/parser/parsing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 51a14b4..97bd20c 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -130,7 +130,9 @@ impl<'a> Parser<'a> {
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
         if self.stuck.get() {
-            self.error(String::from("parser stuck"));
+            self.stuck.set(false);
+            let kind = self.tokens.get(self.pos).map_or(ModelicaToken::EOF, |tok| tok.kind);
+            self.error(format!("unexpected token '{:?}': parser stuck", kind));
         } else if self.errors.is_empty() && !self.eof() {
             // The text may not go on after the start rule
             self.error(format!("unexpected token '{:?}'", self.nth(0)));
@@ -218,7 +220,12 @@ impl<'a> Parser<'a> {
     }
 
     /// Mark currently parsed token as erroneus.
+    ///
+    /// Stuck parser doesn't see the tokens, so its messages would be misleading.
     fn error(&mut self, msg: String) {
+        if self.stuck.get() {
+            return;
+        }
         if let Some(tok) = self.tokens.get(self.pos) {
             self.errors.push(format!(
                 "{}:{}:{}: {}",
-- 
2.43.0

