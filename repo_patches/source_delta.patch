From e9a5c2945fd5491a505f8aa842419dbf01cdf736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 01/34] fix: do not advance the lexer past the end of the
 source

---
 crates/seam/src/parse/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..e3e1b30 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -140,6 +140,7 @@ impl<'a> Lexer {
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
         let c = self.peek_char();
+        if c.is_none() { return None; }
         self.increment_byte_offsets(1);
         while !self.source.is_char_boundary(self.byte_offset.get()) {
             self.increment_byte_offsets(1);
-- 
2.43.0


From de8c40e7e9e882c9c7c49768dc12610fd5b9ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 02/34] fix: count line breaks inside strings and after
 backslashes once

---
 crates/seam/src/parse/lexer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index e3e1b30..5b169b7 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -186,11 +186,8 @@ impl<'a> Lexer {
             let Some(kind) = character_kind(c) else { break };
             // Symbols can contain escaped characters.
             if c == '\\' {
-                let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // `\`.
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -234,7 +231,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -265,7 +261,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
-- 
2.43.0


From 6bfb4718e7185a24a06f1018196ecb9906d7c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 03/34] fix: report the line where a symbol with escaped line
 breaks starts

---
 crates/seam/src/parse/lexer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 5b169b7..c5beae9 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -171,9 +171,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -205,9 +207,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -286,9 +290,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From c534d2d696fb1cceeece70a7dc609000fb405ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 04/34] fix: an escaped backslash in a symbol stands for a
 backslash

---
 crates/seam/src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..3867cb9 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,7 +522,11 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
+        if c == '\\' {
+            // Keep whatever was escaped, including another backslash.
+            if let Some(escaped) = chars.next() { builder.push(escaped) }
+            continue;
+        }
         builder.push(c)
     }
     builder
-- 
2.43.0


From 93778e8668f3072b56ab6e4976d904ff26592936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 05/34] fix: resolve backslash escapes in keywords as in
 symbols

---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 3867cb9..0664f49 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -461,7 +461,7 @@ impl<'a> Parser {
         // Otherwise, parse the value and combine the node.
         let value = self.parse_expr()?;
         Ok(ParseNode::Attribute {
-            keyword: token.value.to_owned(),
+            keyword: escape_sanitize(token.value),
             node: Box::new(value),
             site: token.site.to_owned(),
             leading_whitespace: token.leading_whitespace.to_owned(),
-- 
2.43.0


From 41566aa2f11c1c3d6652fc30704e5a59c44dbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/34] fix: escape attribute values in HTML and XML

---
 crates/seam/src/assemble/html.rs | 6 +++++-
 crates/seam/src/assemble/xml.rs  | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..55bb7e6 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -96,7 +96,11 @@ impl<'a> HTMLFormatter<'a> {
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        if let ParseNode::Raw(raw) = &**node {
+                            write!(f, "{}=\"{}\"", keyword, raw.value)?;
+                        } else {
+                            write!(f, "{}=\"{}\"", keyword, escape_xml(&atom.value))?;
+                        }
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..69d8076 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -167,8 +167,10 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
     let parser::ParseNode::Attribute { keyword, node, .. } = attr else {
         panic!("Passed non-attribute to display_attribute.")
     };
-    if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+    if let ParseNode::Raw(raw) = &**node {
+        Ok(format!("{}=\"{}\"", keyword, raw.value))
+    } else if let Some(symbol) = (*node).atomic() {
+        Ok(format!("{}=\"{}\"", keyword, escape_xml(&symbol.value)))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From ff2f5ebf3d6011a4a408964cae88f5354e17647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/34] fix: write raw content in XML instead of rejecting it

---
 crates/seam/src/assemble/xml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 69d8076..9079ed2 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -37,6 +37,11 @@ impl<'a> XMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", escape_xml(&node.value))?
             },
+            ParseNode::Raw(node) => {
+                // Don't escape any symbols in a raw-content string.
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", node.value)?;
+            },
             ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
-- 
2.43.0


From e8dd439fb9a78d228b722e4021f641803b265139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 08/34] fix: separate the items of XML declarations

---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 9079ed2..aa4b300 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -70,7 +70,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From 52100fd497fd71bcc5d570c87301ef7efc1ebb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/34] fix: report empty tag names instead of panicking

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 55bb7e6..d91ef11 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "HTML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index aa4b300..7c812a6 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -49,6 +49,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "XML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From 798c6a9fea270f6ac732292b1796506712084962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 10/34] fix: report preformatted text from elsewhere instead of
 panicking

---
 crates/seam/src/assemble/html.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index d91ef11..ddad86f 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -164,7 +164,7 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token)?;
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -324,20 +324,25 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (this is reported as an error).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>)
+-> Result<&'a str, GenerationError<'a>> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Ok(end_token.leading_whitespace);
     };
+    let error = || GenerationError::new("HTML",
+        "Start of preformatted text tag must belong to the same source location.",
+        start_node.site());
     if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
+        return Err(error());
     }
     let source: &'a str = end_token.site.source_code;
-    let first_node_offset =
-          start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
+    // The white space or location may not be the original (e.g. after macro expansion).
+    let first_node_offset = start_node.site().bytes_from_start
+        .checked_sub(start_node.leading_whitespace().len())
+        .ok_or_else(error)?
         + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    source.get(first_node_offset..end_token.site.bytes_from_start).ok_or_else(error)
 }
-- 
2.43.0


From e162c012193b27f53e1f8f23a6988db7bddcdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/34] fix: end CSS at-rules without a body with a semicolon

---
 crates/seam/src/assemble/css.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..d32cc8b 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -187,7 +187,11 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        writeln!(f, ";")?; // No body was given, so no block was opened.
+    }
     Ok(())
 }
 
-- 
2.43.0


From fcbddbe30e990f2e78c80ce475fbf0a74d7e3ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 12/34] fix: report CSS rules without selectors instead of
 panicking

---
 crates/seam/src/assemble/css.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index d32cc8b..a1e6a74 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -179,7 +180,7 @@ fn generate_special_selector<'a>(f: Formatter,
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, rule.into_iter(), arg.site())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -195,14 +196,14 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Site<'a>)
+-> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -212,7 +213,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             site));
     };
 
     // Handle special @-rule selectors.
@@ -261,7 +262,7 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
             match node {
                 ParseNode::List { nodes: list, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, list.into_iter(), node.site())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From 8e947564ccf7a9776df5cda67adec1698892bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/34] fix: do not take the last CSS selector for a property
 when there are none

---
 crates/seam/src/assemble/css.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index a1e6a74..807868d 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -198,12 +198,13 @@ fn generate_special_selector<'a>(f: Formatter,
 
 fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Site<'a>)
 -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
+    // Index of first property.
+    let prop_i = iter.clone().take_while(|n| n.atomic().is_some()).count();
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()); // We've checked.
+        .take(prop_i)
+        .filter_map(|n| n.atomic());
 
     // Check we were actually provided with
     // some selectors.
@@ -230,7 +231,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Sit
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    let properties = iter.skip(prop_i);
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
-- 
2.43.0


From c849a8db2efe165cb9e9e2769e67fc59ec5ebd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/34] fix: printing errors on very long lines must not panic

---
 crates/seam/src/assemble/mod.rs   | 4 ++--
 crates/seam/src/parse/expander.rs | 4 ++--
 crates/seam/src/parse/lexer.rs    | 4 ++--
 crates/seam/src/parse/parser.rs   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..8fe382b 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -32,8 +32,8 @@ impl<'a> fmt::Display for GenerationError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+            text_offset=(self.site.line_column() - 1).min(u16::MAX as usize),
+            length=self.site.width().min(u16::MAX as usize))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..ffbae48 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -45,8 +45,8 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index c5beae9..3ba7c10 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -17,8 +17,8 @@ impl<'a> fmt::Display for LexError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 0664f49..9450ef4 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -392,8 +392,8 @@ impl<'a> fmt::Display for ParseError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From f31b742deb6b101427fb454037d4b350f3d1a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 15/34] fix: cloning a boxed formatter clones its contents
 instead of recursing

---
 crates/seam/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..fc3aa56 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -2,6 +2,7 @@
 #![feature(pattern)]
 #![feature(box_patterns)]
 #![feature(associated_type_defaults)]
+#![feature(ptr_metadata)]
 
 pub mod parse;
 pub mod assemble;
@@ -41,8 +42,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $tra:ty) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone the boxed value (not the box, which would recurse).
+                let inner: &$tra = &**self;
+                let data = inner.clone_box();
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    Box::from_raw(std::ptr::from_raw_parts_mut(data, std::ptr::metadata(inner)))
                 }
             }
         }
@@ -50,8 +54,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
         impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone the boxed value (not the box, which would recurse).
+                let inner: &$tra = &**self;
+                let data = inner.clone_box();
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    Box::from_raw(std::ptr::from_raw_parts_mut(data, std::ptr::metadata(inner)))
                 }
             }
         }
-- 
2.43.0


From dd64ddd0d32d67f7a6ca35b2de523d1b6180aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 16/34] fix: do not keep references into a growing list of
 invocations

---
 crates/seam/src/parse/expander.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index ffbae48..565212e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,6 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
 }
 
@@ -102,7 +101,6 @@ impl<'a> Expander<'a> {
             includes: BTreeSet::from([PathBuf::from(".")]),
             subparsers: RefCell::new(Vec::new()),
             subcontexts: RefCell::new(Vec::new()),
-            invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
     }
@@ -160,14 +158,6 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
-    }
-
     /// Update variable (macro) for this scope.
     fn insert_variable(&self, name: String, var: Rc<Macro<'a>>) {
         let mut defs = self.definitions.borrow_mut();
@@ -1806,7 +1796,6 @@ impl<'a> Expander<'a> {
 
                 // Pathway: (%_ _ _) macro invocation.
                 if let Some(symbol) = head.symbol() {
-                    let node = self.register_invocation(node.clone());
                     let name = symbol.value.clone();
                     if name.starts_with("%") {
                         // Rebuild node...
@@ -1818,7 +1807,7 @@ impl<'a> Expander<'a> {
                                 leading.set_leading_whitespace(String::from(""));
                             }
                         }
-                        return self.expand_invocation(name, node, params.into_boxed_slice());
+                        return self.expand_invocation(name, &node, params.into_boxed_slice());
                     }
                 }
                 // Otherwise, if not a macro, just expand child nodes incase they are macros.
-- 
2.43.0


From 010f0fa0b17193d3b4984974666f5749f9cc420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 17/34] fix: keep files included from macros, loops and
 namespaces alive

---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 565212e..deabc80 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files, shared with all subcontexts so that
+    /// what they included outlives them.
+    subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     definitions: Scope<'a>,
 }
@@ -99,7 +101,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Default::default(),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
@@ -125,7 +127,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Rc::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -133,7 +135,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &**parser) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From a169988c0df1d65664b057cab22b182817760fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 18/34] fix: search include directories in the order they were
 given

---
 crates/seam/src/bin.rs            |  5 ++---
 crates/seam/src/parse/expander.rs | 11 ++++-------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index deabc80..4ca0eae 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -8,10 +8,7 @@ use std::{
     ffi::OsString,
     error::Error,
     rc::Rc,
-    collections::{
-        HashMap,
-        BTreeSet,
-    },
+    collections::HashMap,
 };
 
 use chrono::TimeZone;
@@ -88,7 +85,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files, shared with all subcontexts so that
     /// what they included outlives them.
     subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
@@ -100,7 +97,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Default::default(),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -119,7 +116,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From 586f840d298f7d806dc1f40aa6e75682185f8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 19/34] fix: only leading dashes of an argument select an
 option

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..91148c0 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix('-') {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 3eceea0904c564fb9c0be1d7ccd3ef2e97579045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 20/34] fix: report keywords whose value expands to nothing
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4ca0eae..e2d8b6b 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1825,6 +1825,11 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
+                if expanded_nodes.is_empty() {
+                    return Err(ExpansionError(
+                        format!("The value of keyword `:{}' expands to nothing.", keyword),
+                        site));
+                }
                 let new_node = Box::new(expanded_nodes[0].clone());
                 expanded_nodes[0] = ParseNode::Attribute {
                     keyword: keyword.clone(),
-- 
2.43.0


From b2762d6f35e6ee2ab0fdd28fb657df7883edd1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 21/34] fix: report timezone offsets that are out of range
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index e2d8b6b..1f46c8f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -873,7 +873,13 @@ impl<'a> Expander<'a> {
         }?;
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(seconds) => seconds.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
@@ -926,7 +932,13 @@ impl<'a> Expander<'a> {
 
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(seconds) => seconds.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
-- 
2.43.0


From 213fe44c1b792c1aca506c133551676a5d03a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 22/34] fix: report invalid date formats instead of panicking

---
 crates/seam/src/parse/expander.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 1f46c8f..241a2c3 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -910,7 +910,10 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if fmt::Write::write_fmt(&mut formatted, format_args!("{}", time.format(&date_format))).is_err() {
+            return Err(ExpansionError::new("Invalid date format.", &args.number.1.site));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From 67f9e629a615003a2d755361ba0c6f14e36fa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 23/34] fix: report malformed markdown front matter

---
 crates/seam/src/parse/expander.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 241a2c3..38d2da7 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -742,7 +742,8 @@ impl<'a> Expander<'a> {
         };
 
         // How to extract front-matter.
-        let extract_frontmatter = | | -> Result<(), _> {
+        // Gives whether there is any.
+        let extract_frontmatter = | | -> Result<bool, _> {
             use markdown::mdast;
             let ast = match markdown::to_mdast(contents.as_ref(), &options.parse) {
                 Ok(ast) => ast,
@@ -758,29 +759,31 @@ impl<'a> Expander<'a> {
                 [mdast::Node::Yaml(mdast::Yaml { value: yaml, .. }), ..] => {
                     // Parse the YAML and convert it into macro definitions.
                     let _ = expand_yaml(self, yaml, &sep, node.site())?;
-                    Ok(())
+                    Ok(true)
                 },
                 [mdast::Node::Toml(mdast::Toml { value: toml, .. }), ..] => {
                     // Parse the TOML and convert it into macro definitions.
                     let _ = expand_toml(self, toml, &sep, node.site())?;
-                    Ok(())
+                    Ok(true)
                 },
-                _ => return Err(ExpansionError::new(
-                    "This markdown does not contain any frontmatter.",
-                    &args.number.1.site,
-                ))
+                _ => Ok(false)
             }
         };
 
         match only {
             Only::Frontmatter => {
-                extract_frontmatter()?;
+                if !extract_frontmatter()? {
+                    return Err(ExpansionError::new(
+                        "This markdown does not contain any frontmatter.",
+                        &args.number.1.site,
+                    ));
+                }
                 Ok(Box::new([]))
             },
             Only::Content => to_html(),
             Only::Both => {
-                // Ignore any errors if no frontmatter exists.
-                let _ = extract_frontmatter();
+                // It is fine if no frontmatter exists.
+                let _ = extract_frontmatter()?;
                 to_html()
             },
         }
-- 
2.43.0


From 33a87ec032fe93d0dee04aca29f7de8fedf0a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 24/34] fix: order globbed paths by a total order

---
 crates/seam/src/parse/expander.rs | 87 ++++++++-----------------------
 1 file changed, 23 insertions(+), 64 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 38d2da7..3ff624e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1204,77 +1204,35 @@ impl<'a> Expander<'a> {
             node: ParseNode<'a>,
             meta: std::fs::Metadata,
             path: PathBuf,
-            sortby: SortBy,
         }
-        impl<'a> PartialEq for GlobPath<'a> {
-            fn eq(&self, other: &Self) -> bool {
-                self.path == other.path
+        impl<'a> GlobPath<'a> {
+            /// Folders before files, before anything else.
+            fn type_rank(&self) -> u8 {
+                if self.meta.is_dir() { 0 } else if self.meta.is_file() { 1 } else { 2 }
             }
-        }
-        impl<'a> Eq for GlobPath<'a> { }
-        impl<'a> PartialOrd for GlobPath<'a> {
-            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-                if self.sortby != other.sortby { return None };
-                let sortby = self.sortby;
+            /// Order relative to another path (paths without the data
+            /// to sort by come last), defaulting to alphabetical order.
+            fn compare(&self, other: &Self, sortby: SortBy) -> std::cmp::Ordering {
                 match sortby {
-                    SortBy::Created => {
-                        let Ok(d0) = self.meta.created() else { return Some(std::cmp::Ordering::Less) };
-                        let Ok(d1) = other.meta.created() else { return Some(std::cmp::Ordering::Less) };
-                        if d0 == d1 { // If created at the same time, default to alphabetical.
-                            self.path.partial_cmp(&other.path)
-                        } else {
-                            // "ascending" order should be in terms of age.
-                            d0.partial_cmp(&d1).map(|ord| ord.reverse()) // New < Old
-                        }
-                    },
-                    SortBy::Modified => {
-                        let Ok(d0) = self.meta.modified() else { return Some(std::cmp::Ordering::Less) };
-                        let Ok(d1) = other.meta.modified() else { return Some(std::cmp::Ordering::Less) };
-                        if d0 == d1 { // If modified at the same time, default to alphabetical.
-                            self.path.partial_cmp(&other.path)
-                        } else {
-                            // "ascending" order should be in terms of recentness.
-                            d0.partial_cmp(&d1).map(|ord| ord.reverse()) // New < Old
-                        }
-                    },
-                    SortBy::Name => self.path.partial_cmp(&other.path),
-                    SortBy::Type => {
-                        // First sort by file vs. dir.
-                        if self.meta.is_dir() && other.meta.is_file() {
-                            Some(std::cmp::Ordering::Less) // Folder < File
-                        } else if self.meta.is_file() && other.meta.is_dir() {
-                            Some(std::cmp::Ordering::Greater) // File > Folder
-                        } else if let Some(ext) = self.path.extension() {
-                            if let Some(other_ext) = other.path.extension() {
-                                if ext == other_ext {
-                                    self.path.partial_cmp(&other.path) // Sort by name when extension are the same.
-                                } else {
-                                    ext.partial_cmp(other_ext) // Sort by different file extensions before name.
-                                }
-                            } else {
-                                Some(std::cmp::Ordering::Greater) // With ext. > No ext.
-                            }
-                        } else {
-                            if let Some(_) = other.path.extension() {
-                                Some(std::cmp::Ordering::Less) // No ext. < With ext.
-                            } else {
-                                self.path.partial_cmp(&other.path) // Sort by name when neither have extensions.
-                            }
-                        }
-                    }
-                    SortBy::None => Some(std::cmp::Ordering::Less),
+                    // "ascending" order should be in terms of age, i.e. New < Old.
+                    SortBy::Created => other.meta.created().ok().cmp(&self.meta.created().ok())
+                        .then_with(|| self.path.cmp(&other.path)),
+                    // "ascending" order should be in terms of recentness, i.e. New < Old.
+                    SortBy::Modified => other.meta.modified().ok().cmp(&self.meta.modified().ok())
+                        .then_with(|| self.path.cmp(&other.path)),
+                    SortBy::Name => self.path.cmp(&other.path),
+                    // First sort by file vs. dir, then by extension (none first), then by name.
+                    SortBy::Type => self.type_rank().cmp(&other.type_rank())
+                        .then_with(|| self.path.extension().cmp(&other.path.extension()))
+                        .then_with(|| self.path.cmp(&other.path)),
+                    // Stay in the order the paths were found.
+                    SortBy::None => std::cmp::Ordering::Equal,
                 }
             }
         }
-        impl<'a> Ord for GlobPath<'a> {
-            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-                assert_eq!(self.sortby, other.sortby);
-                self.partial_cmp(other).unwrap()
-            }
-        }
 
         // Collect paths.
-        let mut collection: std::collections::BTreeSet<GlobPath> = Default::default();
+        let mut collection: Vec<GlobPath> = Vec::new();
         for path in paths {
             let path = match path {
                 Ok(path) => path,
@@ -1294,8 +1252,9 @@ impl<'a> Expander<'a> {
                 site: args.number.1.site.to_owned(),
                 leading_whitespace: String::from(" "),
             });
-            collection.insert(GlobPath { node, meta, path, sortby });
+            collection.push(GlobPath { node, meta, path });
         }
+        collection.sort_by(|path0, path1| path0.compare(path1, sortby));
         let mut expanded = if is_ascending_order {
             collection.into_iter().map(|path| path.node).collect::<ParseTree>()
         } else {
-- 
2.43.0


From 221f41a270cacf19ed82e3d0c3808994ab99a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 25/34] fix: report paths that disappear or dangle while
 globbing

---
 crates/seam/src/parse/expander.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3ff624e..97ae4c1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1241,7 +1241,13 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            let meta = match std::fs::metadata(&path) {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}", err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From a0e4fc63ebb0e28f55227a6e8d1d3ae2962c9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 26/34] fix: sort mixed numbers and text by a total order

---
 crates/seam/src/parse/expander.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 97ae4c1..293f535 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1436,16 +1436,18 @@ impl<'a> Expander<'a> {
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
+            // Numbers come before text, and are compared by value: as floats, and
+            // then as integers for those too large to be told apart as floats.
+            let number = |key: &str| key.parse::<f64>().ok().filter(|float| !float.is_nan())
+                .map(|float| (float, key.parse::<i64>().unwrap_or(float as i64)));
+            match (number(&item0.key), number(&item1.key)) {
+                (Some((f0, n0)), Some((f1, n1))) => f0.partial_cmp(&f1)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+                    .then(n0.cmp(&n1)),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
-            }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From 07bf804573910e15aa01ddc6c0a5c4145809461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 27/34] fix: capture &&-rest arguments in the order they were
 given

---
 crates/seam/src/parse/expander.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 293f535..f12bb77 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -374,12 +374,14 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1 {
+                if let ParseNode::Attribute { keyword, .. } = node1 {
+                    if let Some(named) = rhs_named.remove(keyword) {
+                        nodes.push(named.clone());
+                    }
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From bc8d8730db2a8d1aad69176a28853b7f0eaeaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 28/34] fix: list unknown keyword arguments in the order they
 were written

---
 crates/seam/src/parse/expander.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index f12bb77..abf378f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -393,19 +393,20 @@ impl<'a> Expander<'a> {
         // Any remaining RHS named nodes not covered by the LHS, are excess/errors.
         if !rhs_named.is_empty() {
             // Go through RHS named nodes and list all the excess/invalid names.
-            let mut excess_keywords: Vec<&str> = vec![];
-            let mut rhs = rhs_named.iter();
-            let (keyword, some_node) = rhs.next().unwrap(); // Non-empty.
-            excess_keywords.push(keyword);
-            for (keyword, _) in rhs {
-                excess_keywords.push(keyword.as_ref());
+            // They are listed in the order they were written.
+            let mut site = assigned.owned_site();
+            let mut excess_keywords: Vec<String> = vec![];
+            for node1 in nodes1 {
+                if let ParseNode::Attribute { keyword, .. } = node1 {
+                    if let Some(named) = rhs_named.remove(keyword) {
+                        if excess_keywords.is_empty() { site = named.owned_site(); }
+                        excess_keywords.push(format!("`:{}`", keyword));
+                    }
+                }
             }
-            let excess_keywords: Vec<String> = excess_keywords
-                .iter()
-                .map(|kw| format!("`:{}`", kw))
-                .collect();
-            let known_keywords: Vec<String> = lhs_named
+            let known_keywords: Vec<String> = nodes0
                 .iter()
+                .filter_map(|node0| node0.attribute())
                 .map(|(kw, _)| format!("`:{}`", kw))
                 .collect();
             let excess_keywords = excess_keywords.join(", ");
@@ -415,7 +416,7 @@ impl<'a> Expander<'a> {
                         "This macro does not expect any keyword arguments, however the following were provided: {}",
                         excess_keywords,
                     ),
-                    some_node.owned_site(),
+                    site,
                 ));
             }
             let known_keywords = known_keywords.join(", ");
@@ -427,7 +428,7 @@ impl<'a> Expander<'a> {
                     excess_keywords,
                     known_keywords,
                 ),
-                some_node.owned_site(),
+                site,
             ));
         }
         Ok(())
-- 
2.43.0


From e8bb82795ecd84225350828aa78d0b58739a9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 29/34] fix: report YAML aliases and compound keys instead of
 panicking

---
 crates/seam/src/parse/expander.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index abf378f..12e0e0e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1899,6 +1899,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// What cannot be represented, if anything was found.
+        unsupported: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1918,6 +1920,15 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
             );
+            // Aliases, and maps or lists as keys, have no equivalent.
+            match event {
+                yaml::Event::Alias(..) => self.unsupported = Some("aliases"),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..)
+                    if self.mode == Some(Mode::Map) && self.defining.is_none() =>
+                        self.unsupported = Some("maps and lists as keys"),
+                _ => {},
+            }
+            if self.unsupported.is_some() { return; }
             match event {
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
@@ -2068,6 +2079,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        unsupported: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2076,6 +2088,12 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
         ))?;
+    if let Some(unsupported) = sink.unsupported {
+        return Err(ExpansionError(
+            format!("Failed to load YAML: {} are not supported.", unsupported),
+            site.to_owned()
+        ));
+    }
 
     Ok(sink.nodes.into_boxed_slice())
 }
-- 
2.43.0


From 6da3099303b7bcff328033bc0913eb35321d6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 30/34] fix: load every document of a YAML stream

---
 crates/seam/src/parse/expander.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 12e0e0e..ccf16ea 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2083,7 +2083,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
     };
 
     yaml::parser::Parser::new_from_str(text)
-        .load(&mut sink, false)
+        .load(&mut sink, true)
         .map_err(|err| ExpansionError(
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
-- 
2.43.0


From f4a7f0f81bc6187c2c1aaf76aca0dc86fc650c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 31/34] fix: reject format strings which the formatter panics
 on

---
 crates/seam/src/parse/expander.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index ccf16ea..c4750f8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1055,6 +1055,11 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
+        if !is_format_string(&format_str.value) {
+            return Err(ExpansionError::new(
+                "Invalid format string.",
+                &format_str.site));
+        }
         let Ok(mut template) = formatx::Template::new(&format_str.value) else {
             return Err(ExpansionError::new(
                 "Invalid format string.",
@@ -1847,6 +1852,31 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Whether `formatx` is able to handle a format string: it panics on braces
+/// out of order, and on a width or precision the standard formatter rejects.
+fn is_format_string(template: &str) -> bool {
+    let template = template.replace("{{", " ").replace("}}", " ");
+    let mut parts = template.split('{');
+    if parts.next().is_some_and(|text| text.contains('}')) {
+        return false;
+    }
+    for part in parts {
+        let Some((placeholder, text)) = part.split_once('}') else {
+            return false;
+        };
+        if text.contains('}') {
+            return false;
+        }
+        let (_, spec) = placeholder.rsplit_once(':').unwrap_or(("", ""));
+        for number in spec.split(|c: char| !c.is_ascii_digit()) {
+            if !number.is_empty() && number.parse::<u16>().is_err() {
+                return false;
+            }
+        }
+    }
+    true
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From a4805f07430699af0b895fd43f8773894f11c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 32/34] fix: list missing format values in a fixed order

---
 crates/seam/src/parse/expander.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index c4750f8..2478fd9 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1095,9 +1095,16 @@ impl<'a> Expander<'a> {
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
             ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+            Err(err) => {
+                // Missing values are listed in no particular order.
+                let message = err.message();
+                let (reason, missing) = message.split_once(": ").unwrap_or((&message, ""));
+                let mut missing: Vec<&str> = missing.split(", ").collect();
+                missing.sort();
+                Err(ExpansionError(
+                    format!("Failed to format string: {}: {}", reason, missing.join(", ")),
+                    format_str.site.clone()))
+            }
         }
     }
 
-- 
2.43.0


From c78d6cff41a17b5eab58dbc9e19c920c306fedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:07 +0000
Subject: [PATCH 33/34] fix: write the white space at the end of preformatted
 text once

---
 crates/seam/src/assemble/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ddad86f..4654150 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -215,7 +215,9 @@ impl<'a> HTMLFormatter<'a> {
                     },
                 }
                 // Closing tag should be equally as spaced as opening tag (?)
-                if end_token.leading_whitespace.is_empty() {
+                if tag == "pre" {
+                    // Its raw text already reaches up to the closing parenthesis.
+                } else if end_token.leading_whitespace.is_empty() {
                     if is_first_node_on_next_line || tag == "style" {
                         write!(f, "{}", leading_whitespace)?;
                     }
-- 
2.43.0


From 8c3bb057d4ad7fba1efa14618db196fd8eb57733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:05 +0000
Subject: [PATCH 34/34] fix: write CSS strings so that they read back as their
 text

---
 crates/seam/src/assemble/css.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 807868d..24c4545 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -65,6 +65,23 @@ const CSS_NON_NESTED_SELECTORS: [&str; 3]
 /// or at least I think.
 const BINARY_OPERATORS: [&str; 4] = ["+", "-", "*", "/"];
 
+/// Write text as a CSS string, which reads back as the same text.
+fn css_string(text: &str) -> String {
+    let mut string = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"'    => string.push_str("\\\""),
+            '\\'   => string.push_str("\\\\"),
+            '\n'   => string.push_str("\\a "),
+            '\r'   => string.push_str("\\d "),
+            '\x0c' => string.push_str("\\c "),
+            _      => string.push(c),
+        }
+    }
+    string.push('"');
+    string
+}
+
 fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<'a>> {
     match node {
         ParseNode::List { nodes: list, .. } => {
@@ -103,7 +120,7 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
         | ParseNode::Symbol(node)
         | ParseNode::String(node) =>
             Ok(if node.value.chars().any(|c| c.is_whitespace()) {
-                format!("{:?}", node.value)
+                css_string(&node.value)
             } else {
                 node.value.to_owned()
             }),
-- 
2.43.0

