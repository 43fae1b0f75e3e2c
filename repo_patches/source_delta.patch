From 8caa0ff64949f49a5d3d2ea1145c0279b1771373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 01/38] fix: report hex literals as an error instead of
 panicking

---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..d3f6459 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,11 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported yet, consume the whole
+                        // literal and let the parser report it.
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From 7ede7ec5923cc2a38438528ce9e94fb98410980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 02/38] fix: do not overflow on dollar arguments with many
 digits

---
 src/lexer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d3f6459..ff9dacc 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -333,14 +333,16 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
-                        self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v = Some(0usize);
+                        while let Some((_, c @ '0'..='9')) = self.chars.peek() {
+                            let d = c.to_digit(10).unwrap() as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From e99381747978e6b9d0d1ce6e19eccd9409c29e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 03/38] fix: terminate when the source ends right after
 DELIMITER

---
 src/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..67fa156 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,10 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if t == Token::Eof {
+                parser.expected_error("delimiter");
+                return ans;
+            }
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From d7a2badab89db90ceaa3076c36ea9c37f0bde4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 04/38] fix: AND binds tighter than XOR, which binds tighter
 than OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From ab67953a295b6ab74e805ded529327b3f227d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 05/38] fix: a COLLATE column property is a collation, not a
 character set

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 77f73cbda0d40a9a35297c3ab09885efcf38137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 06/38] fix: accept SET DEFAULT as a foreign key action

---
 src/alter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..e04030d 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,7 +469,7 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
-- 
2.43.0


From c422f8912254fc1fbf7466b4eb94b6028d7134ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/38] fix: NO ACTION is not SET NULL

---
 src/alter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index e04030d..aa5f34b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -475,7 +475,7 @@ fn parse_add_alter_specification<'a>(
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From 850ffb0b854c560a0a9a0c389e9cc28215961706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/38] fix: report SPATIAL and UNIQUE indexes as such and not
 as FULLTEXT

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index aa5f34b..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 744691128f6a70a259660da2036f900181542027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 09/38] fix: record the span of BEGIN..END and DO blocks
 instead of panicking on empty ones

---
 src/statement.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 67fa156..0586b8b 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -120,8 +120,10 @@ fn parse_commit(parser: &mut Parser<'_, '_>) -> Result<Span, ParseError> {
     parser.consume_keyword(Keyword::COMMIT)
 }
 
-fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, ParseError> {
-    parser.consume_keyword(Keyword::BEGIN)?;
+fn parse_block<'a>(
+    parser: &mut Parser<'a, '_>,
+) -> Result<(Vec<Statement<'a>>, Span), ParseError> {
+    let begin_span = parser.consume_keyword(Keyword::BEGIN)?;
     let mut ans = Vec::new();
     parser.recovered(
         "'END' | 'EXCEPTION'",
@@ -141,8 +143,8 @@ fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, Pa
             parser.consume_token(Token::SemiColon)?;
         }
     }
-    parser.consume_keyword(Keyword::END)?;
-    Ok(ans)
+    let end_span = parser.consume_keyword(Keyword::END)?;
+    Ok((ans, begin_span.join_span(&end_span)))
 }
 
 /// Condition in if statement
@@ -405,7 +407,8 @@ pub enum Statement<'a> {
     Set(Set<'a>),
     Signal(Signal<'a>),
     AlterTable(AlterTable<'a>),
-    Block(Vec<Statement<'a>>), //TODO we should include begin and end
+    /// Statements of a block and the span from "BEGIN" to "END"
+    Block(Vec<Statement<'a>>, Span),
     Begin(Span),
     End(Span),
     Commit(Span),
@@ -418,7 +421,8 @@ pub enum Statement<'a> {
     Copy(Copy<'a>),
     Stdin(&'a str, Span),
     CreateTypeEnum(CreateTypeEnum<'a>),
-    Do(Vec<Statement<'a>>),
+    /// Statements of the block and the span from "DO" to the closing "$$"
+    Do(Vec<Statement<'a>>, Span),
     TruncateTable(TruncateTable<'a>),
     RenameTable(RenameTable<'a>),
     WithQuery(WithQuery<'a>),
@@ -448,7 +452,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            Statement::Block(_, s) => s.clone(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -460,7 +464,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(_, s) => s.clone(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
@@ -494,7 +498,8 @@ pub(crate) fn parse_statement<'a>(
         Token::Ident(_, Keyword::SET) => Some(Statement::Set(parse_set(parser)?)),
         Token::Ident(_, Keyword::SIGNAL) => Some(Statement::Signal(parse_signal(parser)?)),
         Token::Ident(_, Keyword::BEGIN) => Some(if parser.permit_compound_statements {
-            Statement::Block(parse_block(parser)?)
+            let (block, span) = parse_block(parser)?;
+            Statement::Block(block, span)
         } else {
             Statement::Begin(parse_begin(parser)?)
         }),
@@ -521,11 +526,11 @@ pub(crate) fn parse_statement<'a>(
 }
 
 pub(crate) fn parse_do<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
-    parser.consume_keyword(Keyword::DO)?;
-    parser.consume_token(Token::DoubleDollar)?;
-    let block = parse_block(parser)?;
+    let do_span = parser.consume_keyword(Keyword::DO)?;
     parser.consume_token(Token::DoubleDollar)?;
-    Ok(Statement::Do(block))
+    let (block, _) = parse_block(parser)?;
+    let end_span = parser.consume_token(Token::DoubleDollar)?;
+    Ok(Statement::Do(block, do_span.join_span(&end_span)))
 }
 
 /// When part of case statement
-- 
2.43.0


From 532b13eaf96bba7dc849b6db661ab886fd664661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 10/38] fix: a failing trigger body does not change how later
 statements are parsed

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From 8e8b2faacf0089cacf76747f72fbcaa7fa799297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/38] fix: END closes the enclosing block, IF or CASE in any
 statement list

---
 src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 0586b8b..e31fc4e 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,7 +96,9 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
+    parser.permit_compound_statements = old_permit;
     parser.delimiter = old_delimiter;
     r
 }
-- 
2.43.0


From c4de71afc47758d111f000f887b722754463b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 12/38] fix: the unquoted identifier lint is a warning
 everywhere

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..22faa8d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -248,7 +248,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From 70804562e72955b22bfb627fa4a62f3e0e02a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 13/38] fix: do not ask to capitalise keywords that are in all
 caps already

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 22faa8d..9c3921a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -271,7 +271,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From 4e51a043d4b835190ba51b978900381a4d9dae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 14/38] fix: RIGHT JOIN after an ON condition is a join and not
 an operand

---
 src/expression.rs | 4 +++-
 src/keywords.rs   | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index aa77ecc..fe4142c 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1455,7 +1455,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
diff --git a/src/keywords.rs b/src/keywords.rs
index 2297295..54807da 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -1216,7 +1216,6 @@ IF
 LOCALTIME
 LOCALTIMESTAMP
 REPLACE
-RIGHT
 UTC_DATE
 UTC_TIME
 UTC_TIMESTAMP
-- 
2.43.0


From 59d77b7732bd8b7467fd1118ffafb83484ce262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 15/38] fix: accept calls of the INSERT and REPEAT string
 functions

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index fe4142c..d8cd429 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1455,7 +1455,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT)
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT | Keyword::INSERT | Keyword::REPEAT)
                 if matches!(parser.peek(), Token::LParen) =>
             {
                 let i = parser.token.clone();
-- 
2.43.0


From 34f62cfd5f0186f67b6ce26bb6bbc15155bb93bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 16/38] fix: the column list of JOIN .. USING is parenthesised

---
 src/select.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index fa4da15..3eb674f 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -446,6 +446,7 @@ pub(crate) fn parse_table_reference<'a>(
             }
             Token::Ident(_, Keyword::USING) => {
                 let using = parser.consume_keyword(Keyword::USING)?;
+                parser.consume_token(Token::LParen)?;
                 let mut join_column_list = Vec::new();
                 loop {
                     join_column_list.push(parser.consume_plain_identifier()?);
@@ -453,6 +454,7 @@ pub(crate) fn parse_table_reference<'a>(
                         break;
                     }
                 }
+                parser.consume_token(Token::RParen)?;
                 Some(JoinSpecification::Using(join_column_list, using))
             }
             _ => None,
-- 
2.43.0


From 3569f0abd05b9105941bd73bab321f0d4db024fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 17/38] fix: ORDER BY and LIMIT after an unparenthesised last
 SELECT belong to the UNION

---
 src/statement.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index e31fc4e..445d13b 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -779,6 +779,7 @@ pub(crate) fn parse_compound_query<'a>(
         return Ok(q);
     };
     let mut with = Vec::new();
+    let mut last_parenthesised;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
         let union_type = match &parser.token {
@@ -788,6 +789,7 @@ pub(crate) fn parse_compound_query<'a>(
             }
             _ => UnionType::Default,
         };
+        last_parenthesised = matches!(parser.token, Token::LParen);
         let union_statement = Box::new(parse_compound_query_bottom(parser)?);
         with.push(UnionWith {
             union_span,
@@ -799,7 +801,18 @@ pub(crate) fn parse_compound_query<'a>(
         }
     }
 
-    let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
+    // An ORDER BY and LIMIT after the last select belongs to the union unless the select is
+    // parenthesised
+    let (last_order_by, last_limit) = match with.last_mut().map(|w| w.union_statement.as_mut()) {
+        Some(Statement::Select(select)) if !last_parenthesised => {
+            (select.order_by.take(), select.limit.take())
+        }
+        _ => (None, None),
+    };
+
+    let order_by = if last_order_by.is_some() || last_limit.is_some() {
+        last_order_by
+    } else if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
         loop {
@@ -819,7 +832,9 @@ pub(crate) fn parse_compound_query<'a>(
         None
     };
 
-    let limit = if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
+    let limit = if last_limit.is_some() {
+        last_limit
+    } else if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
         let n = parse_expression(parser, true)?;
         match parser.token {
             Token::Comma => {
-- 
2.43.0


From 64d467b4908f767332256765f1780fb8a51966f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 18/38] fix: include the locking clause and CASCADE in the
 spans of SELECT and DROP TABLE

---
 src/drop.rs   | 1 +
 src/select.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
diff --git a/src/select.rs b/src/select.rs
index 3eb674f..6217f46 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -653,6 +653,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 869a6e9a2c6de056e55419323aad5961b332febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 19/38] fix: decode quotes and backslash escapes in string
 literals without losing characters

---
 src/parser.rs | 78 ++++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9c3921a..0d02f3b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -16,7 +16,7 @@ use crate::{
     issue::{IssueHandle, Issues},
     keywords::Keyword,
     lexer::{Lexer, Token},
-    Identifier, ParseOptions, SString, Span, Spanned,
+    Identifier, ParseOptions, SQLDialect, SString, Span, Spanned,
 };
 
 #[derive(Debug)]
@@ -36,44 +36,43 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
+/// Decode the text between the quotes of a string literal
+///
+/// A doubled quote stands for one quote, and a backslash makes a following quote part of the
+/// string. In MariaDB the other backslash escapes are decoded as well, the other dialects
+/// do not have them.
+pub(crate) fn decode_string<'a>(s: &'a str, quote: char, dialect: &SQLDialect) -> Cow<'a, str> {
+    if !s.contains(quote) && !s.contains('\\') {
+        return s.into();
     }
-}
-
-pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
+    let mut r = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == quote {
+            chars.next();
+            r.push(quote);
+        } else if c == '\\' {
             match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
+                Some(e) if e == quote => r.push(quote),
+                Some(e) if dialect.is_maria() => match e {
+                    '0' => r.push('\0'),
+                    'b' => r.push('\u{8}'),
+                    'n' => r.push('\n'),
+                    'r' => r.push('\r'),
+                    't' => r.push('\t'),
+                    'Z' => r.push('\u{1a}'),
+                    // These are only unescaped when used as a pattern
+                    '%' | '_' => r.extend(['\\', e]),
+                    e => r.push(e),
+                },
+                Some(e) => r.extend(['\\', e]),
+                None => r.push('\\'),
             }
+        } else {
+            r.push(c);
         }
-        r.into()
     }
+    r.into()
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
@@ -327,18 +326,19 @@ impl<'a, 'b> Parser<'a, 'b> {
     }
 
     pub(crate) fn consume_string(&mut self) -> Result<SString<'a>, ParseError> {
+        let dialect = &self.options.dialect;
         let (mut a, mut b) = match &self.token {
             Token::SingleQuotedString(v) => {
                 let v = *v;
                 let span = self.span.clone();
                 self.next();
-                (decode_single_quoted_string(v), span)
+                (decode_string(v, '\'', dialect), span)
             }
             Token::DoubleQuotedString(v) => {
                 let v = *v;
                 let span = self.span.clone();
                 self.next();
-                (decode_double_quoted_string(v), span)
+                (decode_string(v, '"', dialect), span)
             }
             _ => self.expected_failure("string")?,
         };
@@ -346,12 +346,14 @@ impl<'a, 'b> Parser<'a, 'b> {
             match self.token {
                 Token::SingleQuotedString(v) => {
                     b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_single_quoted_string(v).as_ref());
+                    a.to_mut()
+                        .push_str(decode_string(v, '\'', dialect).as_ref());
                     self.next();
                 }
                 Token::DoubleQuotedString(v) => {
                     b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_double_quoted_string(v).as_ref());
+                    a.to_mut()
+                        .push_str(decode_string(v, '"', dialect).as_ref());
                     self.next();
                 }
                 _ => break,
-- 
2.43.0


From b534dab69a32130e66ee68077be8593ff6d47c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 20/38] fix: accept double quoted table, alias and column names
 in PostgreSQL

---
 src/create.rs |  6 ++++++
 src/select.rs | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index f52191d..1e39d35 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -408,6 +408,12 @@ pub(crate) fn parse_create_definition<'a>(
             identifier: parser.consume_plain_identifier()?,
             data_type: parse_data_type(parser, false)?,
         }),
+        Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+            Ok(CreateDefinition::ColumnDefinition {
+                identifier: parser.consume_plain_identifier()?,
+                data_type: parse_data_type(parser, false)?,
+            })
+        }
         _ => parser.expected_failure("identifier"),
     }
 }
diff --git a/src/select.rs b/src/select.rs
index 6217f46..8a7c062 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -245,13 +245,18 @@ pub(crate) fn parse_table_reference_inner<'a>(
     //     return Ok(a);
     // }
 
+    let quoted_identifiers = parser.options.dialect.is_postgresql();
+    let is_alias = |t: &Token<'a>| match t {
+        Token::Ident(_, k) => !k.reserved(),
+        Token::DoubleQuotedString(_) => quoted_identifiers,
+        _ => false,
+    };
+
     match &parser.token {
         Token::Ident(_, Keyword::SELECT) | Token::LParen => {
             let query = parse_compound_query(parser)?;
             let as_span = parser.skip_keyword(Keyword::AS);
-            let as_ = if as_span.is_some()
-                || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-            {
+            let as_ = if as_span.is_some() || is_alias(&parser.token) {
                 Some(parser.consume_plain_identifier()?)
             } else {
                 None
@@ -262,14 +267,14 @@ pub(crate) fn parse_table_reference_inner<'a>(
                 as_,
             })
         }
-        Token::Ident(_, _) => {
+        t if matches!(t, Token::Ident(_, _))
+            || (quoted_identifiers && matches!(t, Token::DoubleQuotedString(_))) =>
+        {
             let identifier = parse_qualified_name(parser)?;
 
             // TODO [PARTITION (partition_names)] [[AS] alias]
             let as_span = parser.skip_keyword(Keyword::AS);
-            let as_ = if as_span.is_some()
-                || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-            {
+            let as_ = if as_span.is_some() || is_alias(&parser.token) {
                 Some(parser.consume_plain_identifier()?)
             } else {
                 None
-- 
2.43.0


From dd1aea26a83f9366a0a62618820e13566093f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 21/38] fix: double quoted names are column references in
 PostgreSQL expressions

---
 src/expression.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index d8cd429..0ff49b9 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1071,6 +1071,29 @@ impl<'a> Reducer<'a> {
     }
 }
 
+/// Parse the parts of a column reference that follow its first name
+fn parse_identifier_parts<'a>(
+    parser: &mut Parser<'a, '_>,
+    name: Identifier<'a>,
+) -> Result<Expression<'a>, ParseError> {
+    let mut parts = vec![IdentifierPart::Name(name)];
+    while parser.skip_token(Token::Period).is_some() {
+        match &parser.token {
+            Token::Mul => {
+                parts.push(IdentifierPart::Star(parser.consume_token(Token::Mul)?));
+            }
+            Token::Ident(_, _) => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?));
+            }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?));
+            }
+            _ => parser.expected_failure("Identifier or '*'")?,
+        }
+    }
+    Ok(Expression::Identifier(parts))
+}
+
 pub(crate) fn parse_expression<'a>(
     parser: &mut Parser<'a, '_>,
     inner: bool,
@@ -1359,6 +1382,10 @@ pub(crate) fn parse_expression<'a>(
                     parser.consume_keyword(Keyword::_LIST_)?,
                 )))
             }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                let name = parser.consume_plain_identifier()?;
+                r.shift_expr(parse_identifier_parts(parser, name)?)
+            }
             Token::SingleQuotedString(_) | Token::DoubleQuotedString(_) => {
                 r.shift_expr(Expression::String(parser.consume_string()?))
             }
@@ -1487,22 +1514,8 @@ pub(crate) fn parse_expression<'a>(
                     if let Some(f) = f {
                         r.shift_expr(Expression::Function(f, Vec::new(), s))
                     } else {
-                        let mut parts = vec![IdentifierPart::Name(
-                            parser.token_to_plain_identifier(&i, s)?,
-                        )];
-                        loop {
-                            if parser.skip_token(Token::Period).is_none() {
-                                break;
-                            }
-                            match &parser.token {
-                                Token::Mul => parts
-                                    .push(IdentifierPart::Star(parser.consume_token(Token::Mul)?)),
-                                Token::Ident(_, _) => parts
-                                    .push(IdentifierPart::Name(parser.consume_plain_identifier()?)),
-                                _ => parser.expected_failure("Identifier or '*'")?,
-                            }
-                        }
-                        r.shift_expr(Expression::Identifier(parts))
+                        let name = parser.token_to_plain_identifier(&i, s)?;
+                        r.shift_expr(parse_identifier_parts(parser, name)?)
                     }
                 }
             }
-- 
2.43.0


From 0575e939d3b249958bacb525a9fef925b649300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 22/38] fix: backquoted column references are an error in
 PostgreSQL like other backquoted names

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0d02f3b..689cdc0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -228,6 +228,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From a7067add44be7de264aaa44b0c6be05319aacc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 23/38] fix: a word after a DEFAULT value is the next column
 property

---
 src/expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 0ff49b9..1345405 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1490,7 +1490,10 @@ pub(crate) fn parse_expression<'a>(
                 parser.consume();
                 r.shift_expr(parse_function(parser, i, s)?)
             }
-            Token::Ident(_, k) if k.expr_ident() => {
+            Token::Ident(_, k)
+                if k.expr_ident()
+                    && !(inner && matches!(r.stack.last(), Some(ReduceMember::Expression(_)))) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0


From 10ce3aca090f5c9dbe5418e31f56cfbcd46f8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 24/38] fix: accept functions without parameters

---
 src/create.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/create.rs b/src/create.rs
index 1e39d35..9f71973 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -594,6 +594,9 @@ fn parse_create_function<'a>(
     let mut params = Vec::new();
     parser.consume_token(Token::LParen)?;
     parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
+        if matches!(parser.token, Token::RParen) {
+            return Ok(());
+        }
         loop {
             let direction = match &parser.token {
                 Token::Ident(_, Keyword::IN) => {
-- 
2.43.0


From 65feb84f2ae8a7a3b109ffaf475dfbb88b02ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 25/38] fix: BEGIN starts a block in the body of a function

---
 src/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index 9f71973..053dd91 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -708,7 +708,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
-- 
2.43.0


From 19109a141bccaa616e0a9c8ec63d8bb47fc4e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 26/38] fix: NULL after a DEFAULT value is the next column
 property

---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 1345405..84206fd 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1371,7 +1371,9 @@ pub(crate) fn parse_expression<'a>(
                 false,
                 parser.consume_keyword(Keyword::FALSE)?,
             )),
-            Token::Ident(_, Keyword::NULL) => {
+            Token::Ident(_, Keyword::NULL)
+                if !(inner && matches!(r.stack.last(), Some(ReduceMember::Expression(_)))) =>
+            {
                 r.shift_expr(Expression::Null(parser.consume_keyword(Keyword::NULL)?))
             }
             Token::Ident(_, Keyword::_LIST_) if parser.options.list_hack => {
-- 
2.43.0


From b82711e907977160bc338c361cd778e8fd268929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 27/38] fix: NOT DETERMINISTIC and COMMENT after a return type
 are characteristics of the function

---
 src/data_type.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..6413c0a 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -390,6 +390,13 @@ pub(crate) fn parse_data_type<'a>(
     };
     let mut properties = Vec::new();
     loop {
+        // After a return type this is the function characteristic NOT DETERMINISTIC
+        if no_as
+            && matches!(parser.token, Token::Ident(_, Keyword::NOT))
+            && !matches!(parser.peek(), Token::Ident(_, Keyword::NULL))
+        {
+            break;
+        }
         match parser.token {
             Token::Ident(_, Keyword::SIGNED) => properties.push(DataTypeProperty::Signed(
                 parser.consume_keyword(Keyword::SIGNED)?,
@@ -424,7 +431,7 @@ pub(crate) fn parse_data_type<'a>(
                     parser.consume_plain_identifier()?,
                 ));
             }
-            Token::Ident(_, Keyword::COMMENT) => {
+            Token::Ident(_, Keyword::COMMENT) if !no_as => {
                 parser.consume_keyword(Keyword::COMMENT)?;
                 properties.push(DataTypeProperty::Comment(parser.consume_string()?));
             }
-- 
2.43.0


From 82df48b954acffbac234e54d46d7723b16ddd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 28/38] fix: accept double quoted constraint and index names in
 PostgreSQL

---
 src/alter.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/alter.rs b/src/alter.rs
index b00c77b..5bd5f63 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -417,6 +417,9 @@ fn parse_add_alter_specification<'a>(
     let constraint = if let Some(span) = parser.skip_keyword(Keyword::CONSTRAINT) {
         let v = match &parser.token {
             Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                Some(parser.consume_plain_identifier()?)
+            }
             _ => None,
         };
         Some((span, v))
@@ -437,6 +440,9 @@ fn parse_add_alter_specification<'a>(
             };
             let name = match &parser.token {
                 Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+                Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                    Some(parser.consume_plain_identifier()?)
+                }
                 _ => None,
             };
 
@@ -556,6 +562,9 @@ fn parse_add_alter_specification<'a>(
 
             let name = match &parser.token {
                 Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+                Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                    Some(parser.consume_plain_identifier()?)
+                }
                 _ => None,
             };
 
-- 
2.43.0


From b31895734c5d2abd5c2c896673b72c1446cff33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 29/38] fix: accept END CASE at the end of a CASE statement

---
 src/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index 445d13b..3101f97 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -622,7 +622,10 @@ pub(crate) fn parse_case_statement<'a>(
             Ok(())
         },
     )?;
-    let end_span = parser.consume_keyword(Keyword::END)?;
+    let mut end_span = parser.consume_keyword(Keyword::END)?;
+    if let Some(span) = parser.skip_keyword(Keyword::CASE) {
+        end_span = end_span.join_span(&span);
+    }
     Ok(CaseStatement {
         case_span,
         value,
-- 
2.43.0


From 19d2fe9cf77ce0f9bcf7830e317ff7bb75ecb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 30/38] fix: the span of NATURAL LEFT and RIGHT JOIN starts at
 NATURAL

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 8a7c062..a92309e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -406,7 +406,7 @@ pub(crate) fn parse_table_reference<'a>(
                             .join_span(&parser.consume_keywords(&[Keyword::INNER, Keyword::JOIN])?),
                     ),
                     Token::Ident(_, Keyword::LEFT) => {
-                        let left = parser.consume_keyword(Keyword::LEFT)?;
+                        let left = natural.join_span(&parser.consume_keyword(Keyword::LEFT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
                                 left.join_span(&outer)
@@ -419,7 +419,7 @@ pub(crate) fn parse_table_reference<'a>(
                         }
                     }
                     Token::Ident(_, Keyword::RIGHT) => {
-                        let right = parser.consume_keyword(Keyword::RIGHT)?;
+                        let right = natural.join_span(&parser.consume_keyword(Keyword::RIGHT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
                                 right
-- 
2.43.0


From aec149e5cb5f763a284b6604b0df3fe157aa09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 31/38] fix: a UNION after a derived table without an alias
 belongs to the enclosing query

---
 src/select.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index a92309e..8463ac8 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -19,7 +19,7 @@ use crate::{
     lexer::Token,
     parser::{ParseError, Parser},
     span::OptSpanned,
-    statement::parse_compound_query,
+    statement::{parse_compound_query, parse_compound_query_bottom},
     Identifier, Span, Spanned, Statement,
 };
 
@@ -254,7 +254,12 @@ pub(crate) fn parse_table_reference_inner<'a>(
 
     match &parser.token {
         Token::Ident(_, Keyword::SELECT) | Token::LParen => {
-            let query = parse_compound_query(parser)?;
+            // A UNION after a parenthesised query does not belong to it
+            let query = if matches!(parser.token, Token::LParen) {
+                parse_compound_query_bottom(parser)?
+            } else {
+                parse_compound_query(parser)?
+            };
             let as_span = parser.skip_keyword(Keyword::AS);
             let as_ = if as_span.is_some() || is_alias(&parser.token) {
                 Some(parser.consume_plain_identifier()?)
-- 
2.43.0


From 99f4f10049e2ed7b7af5ce1eaa8d59544b50fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 32/38] fix: backquoted identifiers may contain any character

---
 src/lexer.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ff9dacc..d291d9a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -448,22 +448,15 @@ impl<'a> Lexer<'a> {
                     _ => self.simple_literal(start),
                 },
                 '_' | 'a'..='z' | 'A'..='Z' => self.simple_literal(start),
-                '`' => {
-                    while matches!(
-                        self.chars.peek(),
-                        Some((_, '_' | 'a'..='z' | 'A'..='Z' | '0'..='9' | '-'))
-                    ) {
-                        self.chars.next();
-                    }
-                    match self.chars.peek() {
+                '`' => loop {
+                    match self.chars.next() {
                         Some((i, '`')) => {
-                            let i = *i;
-                            self.chars.next();
-                            Token::Ident(self.s(start + 1..i), Keyword::QUOTED_IDENTIFIER)
+                            break Token::Ident(self.s(start + 1..i), Keyword::QUOTED_IDENTIFIER);
                         }
-                        _ => Token::Invalid,
+                        Some((_, _)) => (),
+                        None => break Token::Invalid,
                     }
-                }
+                },
                 '\'' => loop {
                     match self.chars.next() {
                         Some((_, '\\')) => {
-- 
2.43.0


From 40f1bb9208563367eb3f745e7b7caff380b08811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 33/38] fix: TEMPORARY is an error when dropping anything but
 tables, views and sequences

---
 src/drop.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 53c2e7c..7959b20 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -339,6 +339,14 @@ impl<'a> Spanned for DropTrigger<'a> {
 pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
     let drop_span = parser.consume_keyword(Keyword::DROP)?;
     let temporary = parser.skip_keyword(Keyword::TEMPORARY);
+    if let Some(span) = &temporary {
+        if !matches!(
+            parser.token,
+            Token::Ident(_, Keyword::TABLE | Keyword::VIEW | Keyword::SEQUENCE)
+        ) {
+            parser.err("TEMPORARY not supported here", span);
+        }
+    }
     match &parser.token {
         Token::Ident(_, Keyword::TABLE) => {
             let table_span = parser.consume_keyword(Keyword::TABLE)?;
@@ -369,7 +377,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, kw @ Keyword::DATABASE | kw @ Keyword::SCHEMA) => {
-            // TODO complain about temporary
             let kw = *kw;
             let database_span = parser.consume_keyword(kw)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
@@ -386,7 +393,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::EVENT) => {
-            // TODO complain about temporary
             let event_span = parser.consume_keyword(Keyword::EVENT)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -402,7 +408,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::FUNCTION) => {
-            // TODO complain about temporary
             let function_span = parser.consume_keyword(Keyword::FUNCTION)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -450,7 +455,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             Ok(Statement::DropIndex(v))
         }
         Token::Ident(_, Keyword::PROCEDURE) => {
-            // TODO complain about temporary
             let procedure_span = parser.consume_keyword(Keyword::PROCEDURE)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -470,7 +474,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             parser.todo(file!(), line!())
         }
         Token::Ident(_, Keyword::SERVER) => {
-            // TODO complain about temporary
             let server_span = parser.consume_keyword(Keyword::SERVER)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
-- 
2.43.0


From 1b8f635b4cee12c85ae63886315724fc1f9c0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 34/38] fix: CONSTRAINT is an error when adding a column

---
 src/alter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/alter.rs b/src/alter.rs
index 5bd5f63..2b92fd7 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -586,6 +586,9 @@ fn parse_add_alter_specification<'a>(
             })
         }
         Token::Ident(_, Keyword::COLUMN) => {
+            if let Some((span, _)) = &constraint {
+                parser.err("CONSTRAINT not supported when adding a column", span);
+            }
             parser.consume_keyword(Keyword::COLUMN)?;
             let mut if_not_exists_span = None;
             if matches!(parser.token, Token::Ident(_, Keyword::IF)) {
-- 
2.43.0


From 69b13c36d7abc2f8a92b0bb7d2b1c13b3cc33afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 35/38] fix: error recovery inside nested statements stops at
 the script delimiter

---
 src/parser.rs    | 7 ++++++-
 src/statement.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 689cdc0..43ecfa5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) issues: &'b mut Issues<'a>,
     pub(crate) arg: usize,
     pub(crate) delimiter: Token<'a>,
+    /// The delimiter of the outermost statements
+    pub(crate) script_delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
 }
@@ -87,6 +89,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             issues,
             arg: 0,
             delimiter: Token::SemiColon,
+            script_delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
         }
@@ -102,7 +105,9 @@ impl<'a, 'b> Parser<'a, 'b> {
             match &self.token {
                 t if brackets.is_empty() && success(t) => return Ok(()),
                 Token::Eof => return Err(ParseError::Unrecovered),
-                t if t == &self.delimiter => return Err(ParseError::Unrecovered),
+                t if t == &self.delimiter || t == &self.script_delimiter => {
+                    return Err(ParseError::Unrecovered)
+                }
                 t if brackets.is_empty() && fail(t) => return Err(ParseError::Unrecovered),
                 Token::LParen => {
                     brackets.push(Token::LParen);
diff --git a/src/statement.rs b/src/statement.rs
index 3101f97..f63762d 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -885,7 +885,8 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-            parser.delimiter = t;
+            parser.delimiter = t.clone();
+            parser.script_delimiter = t;
             parser.next();
             continue;
         }
-- 
2.43.0


From 4a890c3066b30bb41c7e51368182981cbc2fe69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:21 +0000
Subject: [PATCH 36/38] fix: nothing follows the star in a column reference

---
 src/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index 84206fd..a6fe010 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1081,6 +1081,8 @@ fn parse_identifier_parts<'a>(
         match &parser.token {
             Token::Mul => {
                 parts.push(IdentifierPart::Star(parser.consume_token(Token::Mul)?));
+                // Nothing can follow the star
+                break;
             }
             Token::Ident(_, _) => {
                 parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?));
-- 
2.43.0


From 5e260ac24e051e2a91c52fe4f3501634b948be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:21 +0000
Subject: [PATCH 37/38] fix: EXCEPTION without any WHEN is an error

---
 src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index f63762d..5399620 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -138,11 +138,15 @@ fn parse_block<'a>(
         |parser| parse_statement_list(parser, &mut ans),
     )?;
     if let Some(_exception_span) = parser.skip_keyword(Keyword::EXCEPTION) {
-        while let Some(_when_span) = parser.skip_keyword(Keyword::WHEN) {
+        loop {
+            parser.consume_keyword(Keyword::WHEN)?;
             parser.consume_plain_identifier()?;
             parser.consume_keyword(Keyword::THEN)?;
             parse_expression(parser, true)?;
             parser.consume_token(Token::SemiColon)?;
+            if !matches!(parser.token, Token::Ident(_, Keyword::WHEN)) {
+                break;
+            }
         }
     }
     let end_span = parser.consume_keyword(Keyword::END)?;
-- 
2.43.0


From a06badc7e257cf951d8181f5306893f8b3ee32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:21 +0000
Subject: [PATCH 38/38] fix: WINDOW without any window is an error

---
 src/select.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 8463ac8..0718340 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -774,7 +774,8 @@ pub(crate) fn parse_select<'a>(parser: &mut Parser<'a, '_>) -> Result<Select<'a>
     };
 
     let window_span = parser.skip_keyword(Keyword::WINDOW);
-    if window_span.is_some() {
+    if let Some(span) = &window_span {
+        parser.err("WINDOW is not supported", span);
         //TODO window_name AS (window_spec) [, window_name AS (window_spec)] ...]
     }
 
-- 
2.43.0

