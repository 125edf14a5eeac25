From cee6eb6c836b92b0a745c0857c9597d5a0d589ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/31] fix: report hex literals as invalid tokens instead of
 panicking

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..1b6929a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From 5217e47fea04e05ec4b8d98e2f8744350e7f5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/31] fix: report out of range $ arguments as invalid tokens
 instead of overflowing

---
 src/lexer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1b6929a..80bcecd 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -333,14 +333,16 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
-                        self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v = Some(0usize);
+                        while let Some((_, c @ '0'..='9')) = self.chars.peek() {
+                            let d = c.to_digit(10).unwrap() as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From 92aaed2db7d61e3029d3b6c299e89cb913657131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 03/31] fix: do not loop forever on DELIMITER at the end of the
 input

---
 src/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..2169aec 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -852,6 +852,10 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
 
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
+            if t == Token::Eof {
+                parser.expected_error("delimiter");
+                return ans;
+            }
 
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
-- 
2.43.0


From 17d1e12cb8b29f963a45a95fa2a654880799409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 04/31] fix: restore permit_compound_statements when a trigger
 body fails to parse

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From 1804f72da8d27a839d0432babe081748cfbffec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 05/31] fix: do not panic on empty blocks within WITH queries

---
 src/with_query.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/with_query.rs b/src/with_query.rs
index 2fb94ae..6b5f0af 100644
--- a/src/with_query.rs
+++ b/src/with_query.rs
@@ -102,7 +102,7 @@ pub(crate) fn parse_with_query<'a>(
                 ) {
                     parser.err(
                         "Only SELECT, INSERT, UPDATE or DELETE allowed within WITH query",
-                        &v.span(),
+                        &lparen_span.join_span(&rparen_span),
                     );
                 }
                 v
@@ -120,6 +120,7 @@ pub(crate) fn parse_with_query<'a>(
             break;
         }
     }
+    let statement_span = parser.span.clone();
     let statement = match parse_statement(parser)? {
         Some(v) => {
             // TODO merge statements are also allowed here
@@ -132,7 +133,7 @@ pub(crate) fn parse_with_query<'a>(
             ) {
                 parser.err(
                     "Only SELECT, INSERT, UPDATE or DELETE allowed as WITH query",
-                    &v.span(),
+                    &statement_span,
                 );
             }
             Box::new(v)
@@ -145,7 +146,7 @@ pub(crate) fn parse_with_query<'a>(
         statement,
     };
     if !parser.options.dialect.is_postgresql() {
-        parser.err("WITH statements only supported by postgresql", &res.span());
+        parser.err("WITH statements only supported by postgresql", &res.with_span);
     }
     Ok(res)
 }
-- 
2.43.0


From a817f71eac4c5e96f8265a5af005c5359c928580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 06/31] fix: let AND bind tighter than XOR and XOR tighter than
 OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 216d52f6ebfc271c27ba53b9b6c11591f15b62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 07/31] fix: decode backslash escapes and doubled quotes in
 string literals

---
 src/parser.rs | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..ea4077d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,8 +36,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
+fn decode_quoted_string(s: &str, quote: char) -> Cow<'_, str> {
+    if !s.contains(quote) && !s.contains('\\') {
         s.into()
     } else {
         let mut r = String::new();
@@ -45,9 +45,23 @@ pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
         loop {
             match chars.next() {
                 None => break,
-                Some('\'') => {
+                Some('\\') => match chars.next() {
+                    None => r.push('\\'),
+                    Some('0') => r.push('\0'),
+                    Some('b') => r.push('\x08'),
+                    Some('n') => r.push('\n'),
+                    Some('r') => r.push('\r'),
+                    Some('t') => r.push('\t'),
+                    Some('Z') => r.push('\x1a'),
+                    Some(c @ ('%' | '_')) => {
+                        r.push('\\');
+                        r.push(c);
+                    }
+                    Some(c) => r.push(c),
+                },
+                Some(c) if c == quote => {
                     chars.next();
-                    r.push('\'');
+                    r.push(quote);
                 }
                 Some(c) => r.push(c),
             }
@@ -56,24 +70,12 @@ pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
     }
 }
 
+pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
+    decode_quoted_string(s, '\'')
+}
+
 pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
-    }
+    decode_quoted_string(s, '"')
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
-- 
2.43.0


From 98cdbe565420271de21e98ecb48325e41154c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 08/31] fix: warn instead of failing on unquoted identifiers

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea4077d..75b8ad0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,7 +250,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From 263ce8aee61bf1db31bc783493ba2cb49b0aec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 09/31] fix: do not warn about capital keywords containing
 underscores or digits

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 75b8ad0..6c8731d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -273,7 +273,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From f16b22841306ddff22855b445986bbc01806e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 10/31] fix: accept RIGHT JOIN after the ON condition of
 another join

---
 src/expression.rs | 4 +++-
 src/keywords.rs   | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index aa77ecc..fe4142c 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1455,7 +1455,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
diff --git a/src/keywords.rs b/src/keywords.rs
index 2297295..54807da 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -1216,7 +1216,6 @@ IF
 LOCALTIME
 LOCALTIMESTAMP
 REPLACE
-RIGHT
 UTC_DATE
 UTC_TIME
 UTC_TIMESTAMP
-- 
2.43.0


From ef32664189b35eacadf70e55831146e26947f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/31] fix: accept calls of the functions INSERT, POSITION and
 REPEAT

---
 src/expression.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index fe4142c..419df95 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1455,8 +1455,14 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
-                if matches!(parser.peek(), Token::LParen) =>
+            Token::Ident(
+                _,
+                Keyword::INSERT
+                | Keyword::LEFT
+                | Keyword::POSITION
+                | Keyword::REPEAT
+                | Keyword::RIGHT,
+            ) if matches!(parser.peek(), Token::LParen) =>
             {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
-- 
2.43.0


From a6b1768d4030d5e134d94de1bd1a1053a3042b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 12/31] fix: return the right index type for ADD UNIQUE and ADD
 SPATIAL

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..d39d925 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 80e90847acf3348cbca351c6f1ad749682ede401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 13/31] fix: return the right foreign key action for SET
 DEFAULT and NO ACTION

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index d39d925..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From bd7df7b99b7194f672ce7a3eb3986cd03e155f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 14/31] fix: return COLLATE of a column as a collation

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 0adf61bed568c5d381730fbeae65ffaa59da7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 15/31] fix: include the locking clause in the span of SELECT

---
 src/select.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From eb06c6a2f1754adecf53c656a74a6e58c8a9493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 16/31] fix: include CASCADE in the span of DROP TABLE

---
 src/drop.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
-- 
2.43.0


From b01e3574f5d8beb167ca4d635e3ccbc314ce9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/31] fix: include the columns in the span of INSERT

---
 src/insert_replace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..6441516 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -248,6 +248,7 @@ impl<'a> Spanned for InsertReplace<'a> {
             .join_span(&self.flags)
             .join_span(&self.into_span)
             .join_span(&self.table)
+            .join_span(&self.columns)
             .join_span(&self.values)
             .join_span(&self.select)
             .join_span(&self.set)
-- 
2.43.0


From ce1058ab59cb727415705b7d5a80be787f6e8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 18/31] fix: accept a trailing ; before END in DO, IF and CASE
 outside of triggers

---
 src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2169aec..ce1381f 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,7 +96,9 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
+    parser.permit_compound_statements = old_permit;
     parser.delimiter = old_delimiter;
     r
 }
-- 
2.43.0


From e8ed6e945712c09568d0435b3052eb6af8a94931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 19/31] fix: accept a BEGIN ... END block as body of a function

---
 src/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index f52191d..2fdba42 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -699,7 +699,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
-- 
2.43.0


From e4739c7769b0bbc589e0fa2f45b75ea960959458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 20/31] fix: do not read function characteristics as part of
 the result type

---
 src/data_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..a61e742 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -407,6 +407,9 @@ pub(crate) fn parse_data_type<'a>(
                 parser.consume_keyword(Keyword::NULL)?,
             )),
             Token::Ident(_, Keyword::NOT) => {
+                if no_as && matches!(parser.peek(), Token::Ident(_, Keyword::DETERMINISTIC)) {
+                    break;
+                }
                 let start = parser.consume_keyword(Keyword::NOT)?.start;
                 properties.push(DataTypeProperty::NotNull(
                     start..parser.consume_keyword(Keyword::NULL)?.end,
@@ -424,7 +427,7 @@ pub(crate) fn parse_data_type<'a>(
                     parser.consume_plain_identifier()?,
                 ));
             }
-            Token::Ident(_, Keyword::COMMENT) => {
+            Token::Ident(_, Keyword::COMMENT) if !no_as => {
                 parser.consume_keyword(Keyword::COMMENT)?;
                 properties.push(DataTypeProperty::Comment(parser.consume_string()?));
             }
-- 
2.43.0


From 661131697ca9a54b79e7ddb3f64f3e82d5b025f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 21/31] fix: let ORDER BY and LIMIT after the last select apply
 to the union

---
 src/statement.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index ce1381f..4624978 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -774,6 +774,7 @@ pub(crate) fn parse_compound_query<'a>(
         return Ok(q);
     };
     let mut with = Vec::new();
+    let mut parenthesized;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
         let union_type = match &parser.token {
@@ -783,6 +784,7 @@ pub(crate) fn parse_compound_query<'a>(
             }
             _ => UnionType::Default,
         };
+        parenthesized = matches!(parser.token, Token::LParen);
         let union_statement = Box::new(parse_compound_query_bottom(parser)?);
         with.push(UnionWith {
             union_span,
@@ -794,7 +796,17 @@ pub(crate) fn parse_compound_query<'a>(
         }
     }
 
-    let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
+    // Without parentheses the last select has consumed the ORDER BY and LIMIT of the union
+    let (select_order_by, select_limit) = match with.last_mut().map(|w| &mut *w.union_statement) {
+        Some(Statement::Select(s)) if !parenthesized && s.locking.is_none() => {
+            (s.order_by.take(), s.limit.take())
+        }
+        _ => (None, None),
+    };
+
+    let order_by = if select_order_by.is_some() || select_limit.is_some() {
+        select_order_by
+    } else if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
         loop {
@@ -814,7 +826,9 @@ pub(crate) fn parse_compound_query<'a>(
         None
     };
 
-    let limit = if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
+    let limit = if select_limit.is_some() {
+        select_limit
+    } else if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
         let n = parse_expression(parser, true)?;
         match parser.token {
             Token::Comma => {
-- 
2.43.0


From b1cc4057f8eadfd56c86b14f3ac97587ea4e8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 22/31] fix: a UNION after a derived table belongs to the outer
 query

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..06bdbe5 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -19,7 +19,7 @@ use crate::{
     lexer::Token,
     parser::{ParseError, Parser},
     span::OptSpanned,
-    statement::parse_compound_query,
+    statement::parse_compound_query_bottom,
     Identifier, Span, Spanned, Statement,
 };
 
@@ -247,7 +247,7 @@ pub(crate) fn parse_table_reference_inner<'a>(
 
     match &parser.token {
         Token::Ident(_, Keyword::SELECT) | Token::LParen => {
-            let query = parse_compound_query(parser)?;
+            let query = parse_compound_query_bottom(parser)?;
             let as_span = parser.skip_keyword(Keyword::AS);
             let as_ = if as_span.is_some()
                 || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-- 
2.43.0


From 18362fb7b02b16daaa6bdca45b86dec8d4c1c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 23/31] fix: DEFAULT and LIMIT expressions end before the next
 operand (DEFAULT 0 AUTO_INCREMENT)

---
 src/expression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index 419df95..e974dbf 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1078,6 +1078,14 @@ pub(crate) fn parse_expression<'a>(
     let mut r = Reducer { stack: Vec::new() };
     loop {
         let e = match parser.token.clone() {
+            // The next operand does not belong to an inner expression, e.g. DEFAULT 0 AUTO_INCREMENT
+            ref t
+                if inner
+                    && !matches!(t, Token::Ampersand)
+                    && matches!(r.stack.last(), Some(ReduceMember::Expression(_))) =>
+            {
+                break
+            }
             Token::Ident(_, Keyword::OR) | Token::DoublePipe if !inner => {
                 r.shift_binop(parser.consume(), BinaryOperator::Or)
             }
-- 
2.43.0


From 8371730fe2d76ea8154807c97d2addbc14876a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 24/31] fix: an error inside parentheses does not end the
 surrounding list

---
 src/expression.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index e974dbf..b2bcbe6 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1544,10 +1544,14 @@ pub(crate) fn parse_expression<'a>(
                 r.shift_expr(Expression::Arg((arg - 1, parser.consume())))
             }
             Token::LParen => {
-                parser.consume_token(Token::LParen)?;
-                let ans = parse_expression_paren(parser)?;
-                parser.consume_token(Token::RParen)?;
-                r.shift_expr(ans)
+                let lparen_span = parser.consume_token(Token::LParen)?;
+                let ans = parser.recovered("')'", &|t| matches!(t, Token::RParen), |parser| {
+                    Ok(Some(parse_expression_paren(parser)?))
+                })?;
+                let rparen_span = parser.consume_token(Token::RParen)?;
+                r.shift_expr(
+                    ans.unwrap_or_else(|| Expression::Invalid(lparen_span.join_span(&rparen_span))),
+                )
             }
             Token::Ident(_, Keyword::EXISTS) => {
                 parser.consume_keyword(Keyword::EXISTS)?;
-- 
2.43.0


From ee74044f3d04793e508c24eb701f36f42bd892f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 25/31] fix: accept COUNT, CAST, EXTRACT, GROUP_CONCAT,
 TIMESTAMPADD and TIMESTAMPDIFF as column names

---
 src/expression.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index b2bcbe6..28225df 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1283,7 +1283,7 @@ pub(crate) fn parse_expression<'a>(
                 };
                 r.shift_expr(e)
             }
-            Token::Ident(_, Keyword::TIMESTAMPADD) => {
+            Token::Ident(_, Keyword::TIMESTAMPADD) if matches!(parser.peek(), Token::LParen) => {
                 let timestamp_add_span = parser.consume();
                 parser.consume_token(Token::LParen)?;
                 let parts = parser.recovered("')'", &|t| matches!(t, Token::RParen), |parser| {
@@ -1309,7 +1309,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(timestamp_add_span))
                 }
             }
-            Token::Ident(_, Keyword::TIMESTAMPDIFF) => {
+            Token::Ident(_, Keyword::TIMESTAMPDIFF) if matches!(parser.peek(), Token::LParen) => {
                 let timestamp_diff_span = parser.consume();
                 parser.consume_token(Token::LParen)?;
                 let parts = parser.recovered("')'", &|t| matches!(t, Token::RParen), |parser| {
@@ -1373,7 +1373,7 @@ pub(crate) fn parse_expression<'a>(
             Token::Integer(_) => r.shift_expr(Expression::Integer(parser.consume_int()?)),
             Token::Float(_) => r.shift_expr(Expression::Float(parser.consume_float()?)),
 
-            Token::Ident(_, Keyword::CAST) => {
+            Token::Ident(_, Keyword::CAST) if matches!(parser.peek(), Token::LParen) => {
                 let cast_span = parser.consume_keyword(Keyword::CAST)?;
                 parser.consume_token(Token::LParen)?;
                 let cast = parser.recovered("')'", &|t| matches!(t, Token::RParen), |parser| {
@@ -1394,7 +1394,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(cast_span))
                 }
             }
-            Token::Ident(_, Keyword::COUNT) => {
+            Token::Ident(_, Keyword::COUNT) if matches!(parser.peek(), Token::LParen) => {
                 let count_span = parser.consume_keyword(Keyword::COUNT)?;
                 parser.consume_token(Token::LParen)?;
                 let distinct_span = parser.skip_keyword(Keyword::DISTINCT);
@@ -1413,7 +1413,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(count_span))
                 }
             }
-            Token::Ident(_, Keyword::GROUP_CONCAT) => {
+            Token::Ident(_, Keyword::GROUP_CONCAT) if matches!(parser.peek(), Token::LParen) => {
                 let group_concat_span: core::ops::Range<usize> =
                     parser.consume_keyword(Keyword::GROUP_CONCAT)?;
                 parser.consume_token(Token::LParen)?;
@@ -1439,7 +1439,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(group_concat_span))
                 }
             }
-            Token::Ident(_, Keyword::EXTRACT) => {
+            Token::Ident(_, Keyword::EXTRACT) if matches!(parser.peek(), Token::LParen) => {
                 let extract_span = parser.consume_keyword(Keyword::EXTRACT)?;
                 parser.consume_token(Token::LParen)?;
                 let parts = parser.recovered("')'", &|t| matches!(t, Token::RParen), |parser| {
-- 
2.43.0


From fedf1a58d6eb7dd7db60eeb4a9733627ff5423d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 26/31] fix: recovery inside a block stops at the delimiter of
 the script

---
 src/parser.rs    | 7 ++++++-
 src/statement.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6c8731d..44e0dd9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) issues: &'b mut Issues<'a>,
     pub(crate) arg: usize,
     pub(crate) delimiter: Token<'a>,
+    /// Delimiter between the statements of the script, statements in blocks are separated by ;
+    pub(crate) script_delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
 }
@@ -90,6 +92,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             issues,
             arg: 0,
             delimiter: Token::SemiColon,
+            script_delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
         }
@@ -105,7 +108,9 @@ impl<'a, 'b> Parser<'a, 'b> {
             match &self.token {
                 t if brackets.is_empty() && success(t) => return Ok(()),
                 Token::Eof => return Err(ParseError::Unrecovered),
-                t if t == &self.delimiter => return Err(ParseError::Unrecovered),
+                t if t == &self.delimiter || t == &self.script_delimiter => {
+                    return Err(ParseError::Unrecovered)
+                }
                 t if brackets.is_empty() && fail(t) => return Err(ParseError::Unrecovered),
                 Token::LParen => {
                     brackets.push(Token::LParen);
diff --git a/src/statement.rs b/src/statement.rs
index 4624978..d6eb2a5 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -876,7 +876,8 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-            parser.delimiter = t;
+            parser.delimiter = t.clone();
+            parser.script_delimiter = t;
             parser.next();
             continue;
         }
-- 
2.43.0


From eb1647cdd90e197bd5ef74005383db5b96148e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 27/31] fix: the span of NATURAL LEFT/RIGHT JOIN covers NATURAL

---
 src/select.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 06bdbe5..b1c3db0 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -404,12 +404,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let left = parser.consume_keyword(Keyword::LEFT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
-                                left.join_span(&outer)
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalLeft(
-                                left.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
@@ -417,13 +421,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let right = parser.consume_keyword(Keyword::RIGHT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
-                                right
+                                natural
+                                    .join_span(&right)
                                     .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalRight(
-                                right.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&right)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
-- 
2.43.0


From f1b6db5115634e79f86b052b051735b3ea973368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 28/31] fix: DROP TEMPORARY reports what cannot be temporary

---
 src/drop.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 53c2e7c..7959b20 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -339,6 +339,14 @@ impl<'a> Spanned for DropTrigger<'a> {
 pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
     let drop_span = parser.consume_keyword(Keyword::DROP)?;
     let temporary = parser.skip_keyword(Keyword::TEMPORARY);
+    if let Some(span) = &temporary {
+        if !matches!(
+            parser.token,
+            Token::Ident(_, Keyword::TABLE | Keyword::VIEW | Keyword::SEQUENCE)
+        ) {
+            parser.err("TEMPORARY not supported here", span);
+        }
+    }
     match &parser.token {
         Token::Ident(_, Keyword::TABLE) => {
             let table_span = parser.consume_keyword(Keyword::TABLE)?;
@@ -369,7 +377,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, kw @ Keyword::DATABASE | kw @ Keyword::SCHEMA) => {
-            // TODO complain about temporary
             let kw = *kw;
             let database_span = parser.consume_keyword(kw)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
@@ -386,7 +393,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::EVENT) => {
-            // TODO complain about temporary
             let event_span = parser.consume_keyword(Keyword::EVENT)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -402,7 +408,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::FUNCTION) => {
-            // TODO complain about temporary
             let function_span = parser.consume_keyword(Keyword::FUNCTION)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -450,7 +455,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             Ok(Statement::DropIndex(v))
         }
         Token::Ident(_, Keyword::PROCEDURE) => {
-            // TODO complain about temporary
             let procedure_span = parser.consume_keyword(Keyword::PROCEDURE)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -470,7 +474,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             parser.todo(file!(), line!())
         }
         Token::Ident(_, Keyword::SERVER) => {
-            // TODO complain about temporary
             let server_span = parser.consume_keyword(Keyword::SERVER)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
-- 
2.43.0


From a72406f6a9f2ede55d442989620068db997c975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 29/31] fix: ADD CONSTRAINT ... COLUMN is reported

---
 src/alter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/alter.rs b/src/alter.rs
index b00c77b..6814f3e 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -577,6 +577,9 @@ fn parse_add_alter_specification<'a>(
             })
         }
         Token::Ident(_, Keyword::COLUMN) => {
+            if let Some((span, _)) = &constraint {
+                parser.err("CONSTRAINT not supported for ADD COLUMN", span);
+            }
             parser.consume_keyword(Keyword::COLUMN)?;
             let mut if_not_exists_span = None;
             if matches!(parser.token, Token::Ident(_, Keyword::IF)) {
-- 
2.43.0


From 809b9456f2132599deb7fa4a6b356f93e756d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 30/31] fix: ON DUPLICATE KEY UPDATE and ON CONFLICT are
 reported for REPLACE

---
 src/insert_replace.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6441516..48ed3a0 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -412,6 +412,9 @@ pub(crate) fn parse_insert_replace<'a>(
                             &on_duplicate_key_update_span.join_span(&pairs),
                         );
                     }
+                    if !insert {
+                        parser.err("Not supported for replace", &on_duplicate_key_update_span);
+                    }
                     (
                         Some(InsertReplaceOnDuplicateKeyUpdate {
                             on_duplicate_key_update_span,
@@ -493,6 +496,9 @@ pub(crate) fn parse_insert_replace<'a>(
                     if !parser.options.dialect.is_postgresql() {
                         parser.err("Only support by postgesql", &on_conflict);
                     }
+                    if !insert {
+                        parser.err("Not supported for replace", &on_conflict);
+                    }
 
                     (None, Some(on_conflict))
                 }
-- 
2.43.0


From cb5c3eeeac07a4439ee86f896ffa69bf9747c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:07 +0000
Subject: [PATCH 31/31] fix: report a DELIMITER that is no token

---
 src/statement.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index d6eb2a5..12bb72c 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -873,7 +873,9 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
                 return ans;
             }
 
-            if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
+            if t == Token::Invalid {
+                parser.expected_error("delimiter");
+            } else if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
             parser.delimiter = t.clone();
-- 
2.43.0

