From 500993618bcf962a821680140b8b6fa430ffcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 01/34] hook: expose update and string_literal_arg under
 cfg(nom_sparql_verif)

---
 src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..e8bffe4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,3 +31,18 @@ pub mod var;
 pub mod write;
 
 pub mod mimes {}
+
+/// Entry points for the external checks; compiled only with `--cfg nom_sparql_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(nom_sparql_verif)]
+pub mod verif_hooks {
+    use nom::IResult;
+
+    pub fn update(i: &str) -> IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+
+    pub fn string_literal_arg(i: &str) -> IResult<&str, crate::literal::StringLiteral> {
+        crate::literal::string_literal_arg(i)
+    }
+}
-- 
2.43.0


From 4aa0e62ffe76cf89793e1ff25ec0fec162ae52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 02/34] fix: path_mod slices at a byte offset and asks for more
 input

`&i[0..1]` panics when a path element is followed by a multi-byte
character, and an empty rest gave Err::Incomplete out of a complete parser.
---
 src/path.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 437a410..b4ae652 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -2,17 +2,15 @@ use std::str::FromStr;
 
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
-use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
-use nom::Err;
 use nom::{
     branch::alt,
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
-    IResult, Needed,
+    IResult,
 };
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
@@ -274,13 +272,7 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
-    }
+    map_res(take_while_m_n(1, 1, is_path_mod), PathMod::from_str)(i)
 }
 
 #[inline]
-- 
2.43.0


From dd2eced8a7bb7a58263e36973c5446be7dec22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/34] fix: NOT IN / IN use streaming tags

A query ending inside or right after a relational expression gave
Err::Incomplete.
---
 src/arithmetic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..bc9546a 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -4,8 +4,7 @@ use crate::expression::{expression_list, primary_expression, ExpressionList, Pri
 use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
-- 
2.43.0


From 7e5b2d145b9ccba3b38cc7f9b40f147c2ecdf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 04/34] fix: lists separated by optional whitespace never end

nom's separated_list/separated_nonempty_list fail when the separator matches
the empty string, so every list separated by `sp` failed unless whitespace
and another element followed.
---
 src/arithmetic.rs      | 8 ++++----
 src/clauses.rs         | 6 +++---
 src/graph.rs           | 4 ++--
 src/group.rs           | 4 ++--
 src/operations.rs      | 4 ++--
 src/query/ask.rs       | 6 +++---
 src/query/construct.rs | 6 +++---
 src/query/describe.rs  | 6 +++---
 src/query/select.rs    | 4 ++--
 src/var.rs             | 4 ++--
 10 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index bc9546a..199e7ab 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -6,7 +6,7 @@ use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -119,7 +119,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            many0(preceded(sp, add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -138,7 +138,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -152,7 +152,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            many0(preceded(sp, mult_expression)),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..8132c95 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_nonempty_list,
+    multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -72,7 +72,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            many1(preceded(sp, order_condition)),
         ),
         OrderClause,
     )(i)
@@ -82,7 +82,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
+            many1(preceded(sp, constraint)),
         ),
         HavingClause,
     )(i)
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..bf21425 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -30,7 +30,7 @@ use crate::{
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            many0(preceded(sp, group_graph_pattern_and_triples)),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index f759ccc..8a27e81 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,5 +1,5 @@
 use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
@@ -34,7 +34,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            many1(preceded(sp, group_condition)),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..0387dff 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -97,7 +97,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            many0(preceded(sp, using_clause)),
             sp_enc1(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..6edcd46 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -4,8 +4,8 @@ use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1};
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
-use nom::multi::separated_list;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0;
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -19,7 +19,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..89d1b95 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -12,7 +12,7 @@ use nom::{
     bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
-    multi::many1,
+    multi::{many0, many1},
     multi::separated_list,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
@@ -46,7 +46,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(tag_no_case("where"), sp1),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -63,7 +63,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..47a641a 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -8,8 +8,8 @@ use nom::{
     bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
+    multi::many0,
+    sequence::{preceded, terminated, tuple},
     IResult,
 };
 
@@ -26,7 +26,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..99aedab 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::{many0, many1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            many0(preceded(sp, data_set_clause)),
             sp_enc(where_clause),
             solution_modifier,
         )),
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..396ef2c 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -8,7 +8,7 @@ use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{AsChar, IResult};
 
@@ -86,7 +86,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
         map(
-            separated_nonempty_list(sp, var_or_iri),
+            many1(preceded(sp, var_or_iri)),
             VarOrIrisOrAll::VarIri,
         ),
         map(char('*'), |_| VarOrIrisOrAll::All),
-- 
2.43.0


From b7a4a3996d4b7bd50c02b1864f494126820aabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 05/34] fix: `(` and `[` commit to NIL and ANON

The cut turned every non-empty argument list, expression list, collection
and blank node property list into an Err::Failure.
---
 src/graph.rs     | 2 +-
 src/terminals.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index bf21425..a4e5709 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -271,7 +271,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        map(pair(char('['), preceded(sp, char(']'))), |_| BlankNode::Anon),
     ))(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..ae85912 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -409,7 +409,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    preceded(char('('), terminated(sp, char(')')))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1b9875091bbe090f83f3bbc78a90549ae3012459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 06/34] fix: keywords demand whitespace after them

`WHERE{`, `FILTER(`, `FROM<...>`, `SELECT?x` and the like are valid: a keyword
only has to end there, that is not run on into a name.
---
 src/aggregate.rs       |  2 +-
 src/arithmetic.rs      |  6 +++---
 src/call.rs            |  6 +++---
 src/clauses.rs         |  8 ++++----
 src/expression/mod.rs  | 10 +++++-----
 src/graph.rs           | 25 ++++++++++++-------------
 src/group.rs           |  4 ++--
 src/literal.rs         |  6 +++---
 src/operations.rs      | 30 +++++++++++++++---------------
 src/order.rs           |  9 ++++-----
 src/parser.rs          |  2 +-
 src/query/ask.rs       |  5 ++---
 src/query/construct.rs |  7 +++----
 src/query/describe.rs  |  7 +++----
 src/query/select.rs    | 14 +++++++-------
 src/terminals.rs       | 11 ++++++++++-
 16 files changed, 78 insertions(+), 74 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..cf40f31 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -94,7 +94,7 @@ pub(crate) fn count(i: &str) -> IResult<&str, Count> {
         preceded_tag(
             "count",
             bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                 count_target,
             )),
         ),
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 199e7ab..be37741 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,12 +2,12 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::terminals::{keyword, preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
 use nom::multi::{many0, separated_nonempty_list};
-use nom::sequence::{pair, preceded, terminated};
+use nom::sequence::{delimited, pair, preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -176,7 +176,7 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(tag_no_case("not"), delimited(sp1, keyword("in"), sp)),
                 expression_list,
             ),
             OpExpression::NIN,
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..deb0987 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,7 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, keyword, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc},
     var::{var, Var},
 };
 
@@ -285,7 +285,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         map(
             tuple((
                 tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                delimited(sp1, keyword("exists"), sp),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
@@ -300,7 +300,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
             delimited(
                 terminated(char('('), sp),
                 tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
                 char(')'),
diff --git a/src/clauses.rs b/src/clauses.rs
index 8132c95..fc42ed7 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, keyword, preceded_tag1, sp, sp1},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -71,7 +71,7 @@ pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
 pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("order"), sp1, keyword("by")), sp),
             many1(preceded(sp, order_condition)),
         ),
         OrderClause,
@@ -81,7 +81,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
+            terminated(keyword("having"), sp),
             many1(preceded(sp, constraint)),
         ),
         HavingClause,
@@ -90,7 +90,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(keyword("where"), sp)),
         group_graph_pattern,
     )(i)
 }
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..4149805 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -13,7 +13,7 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{bracketted, iri_or_fun, keyword, nil, preceded_tag1, rdf_literal, sp, sp_enc},
 };
 
 use crate::var::{var, Var};
@@ -126,7 +126,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(keyword("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
@@ -140,7 +140,7 @@ pub(crate) fn expression_as_var(i: &str) -> IResult<&str, ExpressionAsVar> {
     delimited(
         char('('),
         sp_enc(map(
-            separated_pair(expression, sp_enc(tag_no_case("as")), var),
+            separated_pair(expression, sp_enc(keyword("as")), var),
             |(expression, var)| ExpressionAsVar {
                 expression: Box::new(expression),
                 var,
@@ -181,7 +181,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
 pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
     map(
         pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
             expression,
         ),
         |(distinct, expression)| DistinctExpression {
diff --git a/src/graph.rs b/src/graph.rs
index a4e5709..a3e5a06 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -20,10 +20,9 @@ use crate::{
     node::{BlankNode, RdfLiteral, TriplesNode},
     quads::{quads_pattern, Quads},
     query::select::{sub_select, SubSelect},
-    terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        anon, default_or_named_iri, iri, keyword, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
@@ -123,14 +122,14 @@ pub struct ServiceGraphPattern {
 }
 
 pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+    map(sp_sep(keyword("graph"), iri), |(_, iri)| iri)(i)
 }
 
 pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
-        map(tag_no_case("default"), |_| GraphOrDefault::Default),
+        map(keyword("default"), |_| GraphOrDefault::Default),
         map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            pair(opt(pair(keyword("graph"), sp)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
         ),
     ))(i)
@@ -138,9 +137,9 @@ pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
 
 pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
     alt((
-        map(tag_no_case("default"), |_| GraphRefAll::Default),
-        map(tag_no_case("named"), |_| GraphRefAll::Named),
-        map(tag_no_case("all"), |_| GraphRefAll::All),
+        map(keyword("default"), |_| GraphRefAll::Default),
+        map(keyword("named"), |_| GraphRefAll::Named),
+        map(keyword("all"), |_| GraphRefAll::All),
         map(graph_ref, GraphRefAll::GraphRef),
     ))(i)
 }
@@ -166,7 +165,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(keyword("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
@@ -180,7 +179,7 @@ pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("graph"), sp1),
+            terminated(keyword("graph"), sp),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
@@ -221,8 +220,8 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
 pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(keyword("service"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
diff --git a/src/group.rs b/src/group.rs
index 8a27e81..07aedaf 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{keyword, sp, sp1};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -33,7 +33,7 @@ pub enum GroupCondition {
 pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("group"), sp1, keyword("by")), sp),
             many1(preceded(sp, group_condition)),
         ),
         GroupClause,
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..1a6fb5a 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{keyword, language_tag, rdf_literal, string_literal};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
@@ -98,12 +98,12 @@ pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
 
 #[inline]
 pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("silent"), |_| true)(i)
+    map(keyword("silent"), |_| true)(i)
 }
 
 #[inline]
 pub(crate) fn distinct(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("distinct"), |_| true)(i)
+    map(keyword("distinct"), |_| true)(i)
 }
 
 pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
diff --git a/src/operations.rs b/src/operations.rs
index 0387dff..77dea87 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, keyword, preceded_tag1, sp, sp1, sp_enc},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -87,7 +87,7 @@ pub enum DeleteInsert {
 
 pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
     map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        pair(pair(keyword("add"), sp), silent_from_to),
         |(_, (silent, from, to))| AddStatement { silent, from, to },
     )(i)
 }
@@ -98,7 +98,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
             many0(preceded(sp, using_clause)),
-            sp_enc1(tag_no_case("where")),
+            sp_enc(keyword("where")),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
@@ -112,31 +112,31 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
 
 pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
     map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        pair(pair(keyword("move"), sp), silent_from_to),
         |(_, (silent, from, to))| MoveStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
     map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        pair(pair(keyword("copy"), sp), silent_from_to),
         |(_, (silent, from, to))| CopyStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
     tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_or_default,
-        preceded(sp_enc(tag_no_case("to")), graph_or_default),
+        preceded(sp_enc(keyword("to")), graph_or_default),
     ))(i)
 }
 
 pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
     map(
         tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(keyword("create"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             graph_ref,
         )),
         |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
@@ -145,7 +145,7 @@ pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
 
 pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
     map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        pair(pair(keyword("drop"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| DropStatement {
             silent,
             graph_ref_all,
@@ -155,7 +155,7 @@ pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
 
 pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
     map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        pair(pair(keyword("clear"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| ClearStatement {
             silent,
             graph_ref_all,
@@ -165,7 +165,7 @@ pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
 
 pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
     pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_ref_all,
     )(i)
 }
@@ -173,10 +173,10 @@ pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)
 pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
     map(
         tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(keyword("load"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             iri,
-            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
+            opt(preceded(sp_enc(keyword("into")), graph_ref)),
         )),
         |(_, silent, iri, graph_ref)| LoadStatement {
             iri,
diff --git a/src/order.rs b/src/order.rs
index bed59ae..c2f1cc3 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,12 +1,11 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::{keyword, sp};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -30,14 +29,14 @@ pub enum OrderCondition {
 
 pub(crate) fn order(i: &str) -> IResult<&str, Order> {
     alt((
-        map(tag_no_case("asc"), |_| Order::Asc),
-        map(tag_no_case("desc"), |_| Order::Desc),
+        map(keyword("asc"), |_| Order::Asc),
+        map(keyword("desc"), |_| Order::Desc),
     ))(i)
 }
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..a36352c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -15,7 +15,7 @@ pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
         tuple((
             terminated(prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag1("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 6edcd46..41541fe 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,8 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::{keyword, sp};
 use nom::combinator::map;
 use nom::multi::many0;
 use nom::sequence::{preceded, terminated, tuple};
@@ -18,7 +17,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(keyword("ask"), sp),
             terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 89d1b95..10d2d2b 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{keyword, preceded_tag1, sp, sp_enc},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::{many0, many1},
@@ -47,7 +46,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(many0(preceded(sp, data_set_clause)), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(keyword("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -62,7 +61,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 47a641a..7d1bd7f 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{keyword, sp, sp_enc};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many0,
@@ -24,8 +23,8 @@ pub struct DescribeQuery {
 pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
-            tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            keyword("describe"),
+            sp_enc(var_or_iris_or_all),
             terminated(many0(preceded(sp, data_set_clause)), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index 99aedab..a60b16c 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{keyword, sp, sp_enc};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -53,7 +53,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             many0(preceded(sp, data_set_clause)),
             sp_enc(where_clause),
             solution_modifier,
@@ -87,9 +87,9 @@ pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
 pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
     map(
         tuple((
-            tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            keyword("select"),
+            opt(preceded(sp, select_modifier)),
+            preceded(sp, select_vars),
         )),
         |(_, modifier, vars)| SelectClause { modifier, vars },
     )(i)
@@ -107,7 +107,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
 
 pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
     alt((
-        map(tag_no_case("distinct"), |_| SelectModifier::Distinct),
-        map(tag_no_case("reduced"), |_| SelectModifier::Reduced),
+        map(keyword("distinct"), |_| SelectModifier::Distinct),
+        map(keyword("reduced"), |_| SelectModifier::Reduced),
     ))(i)
 }
diff --git a/src/terminals.rs b/src/terminals.rs
index ae85912..12ac64b 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -56,7 +56,16 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    preceded(terminated(keyword(tag), sp), pat)
+}
+
+/// a case insensitive keyword that is not merely the beginning of a longer name
+#[inline]
+pub(crate) fn keyword<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag_no_case(tag),
+        not(take_while_m_n(1, 1, |c| is_pn_char(c) || c == ':')),
+    )
 }
 
 #[inline]
-- 
2.43.0


From 8cd1d5200a88664aedda7e2a3a97eeecef5f599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 07/34] fix: property path separators and spacing

Sequences are separated by '/', objects by ','; layout may surround every
token of a path; `?` and `+` right before a variable name or number belong to
that variable or number.
---
 src/expression/iri.rs |  6 +++---
 src/path.rs           | 37 ++++++++++++++++++++++---------------
 src/triple.rs         |  4 ++--
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..4c4a7a7 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,10 +1,10 @@
 use crate::expression::Iri;
-use crate::terminals::iri;
+use crate::terminals::{iri, sp};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::sequence::{pair, preceded};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -26,6 +26,6 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+        map(preceded(pair(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
     ))(i)
 }
diff --git a/src/path.rs b/src/path.rs
index b4ae652..df6959c 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
+use nom::character::complete::{char, digit1};
+use nom::combinator::{map, not, opt};
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::{
@@ -16,9 +16,9 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp_enc, sp_sep};
 use crate::triple::object_list;
-use crate::var::{var, var_or_term, Var, VarOrTerm};
+use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum GraphNodePath {
@@ -123,7 +123,7 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
+            sp_sep(var_or_term, property_list_path_not_empty),
             |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
                 var_or_term,
                 property_list,
@@ -150,7 +150,7 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
         tuple((
-            terminated(verb_path_or_simple, sp1),
+            terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
         )),
@@ -175,14 +175,14 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
 
 pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
     map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
+        separated_pair(verb_path_or_simple, sp, object_list),
         |(verb_path_or_simple, object_list)| PropertyListPathEntry {
             verb_path_or_simple,
             object_list,
@@ -197,7 +197,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
@@ -219,7 +219,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
@@ -229,11 +229,11 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
         map(iri, PathPrimary::Iri),
         map(tag("a"), |_| PathPrimary::A),
         map(
-            preceded(tag("!"), path_negated_property_set),
+            preceded(pair(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            delimited(tag("("), sp_enc(path_alternative), tag(")")),
             PathPrimary::Path,
         ),
     ))(i)
@@ -242,13 +242,13 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
 pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
     alt((
         map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+        map(preceded(pair(tag("^"), sp), path_elt), PathEltOrInverse::Inverse),
     ))(i)
 }
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(preceded(sp, path_mod))),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
@@ -272,7 +272,14 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    map_res(take_while_m_n(1, 1, is_path_mod), PathMod::from_str)(i)
+    map_res(
+        alt((
+            tag("*"),
+            terminated(tag("?"), not(var_name)),
+            terminated(tag("+"), not(pair(opt(char('.')), digit1))),
+        )),
+        PathMod::from_str,
+    )(i)
 }
 
 #[inline]
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..7a2918d 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, sp, sp_enc, sp_sep},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -113,7 +113,7 @@ pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject>
             },
         ),
         map(
-            sp_sep1(var_or_term, property_list_not_empty),
+            sp_sep(var_or_term, property_list_not_empty),
             |(var_or_term, property_list)| TriplesSameSubject::Term {
                 var_or_term,
                 property_list,
-- 
2.43.0


From 79bbb61f046484f0ed1b355b7d2f502f580943fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 08/34] fix: negated property sets: single and empty forms

`!iri`, `!^iri` and `!()` are valid next to `!(a|b)`.
---
 src/path.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index df6959c..8488377 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -258,11 +258,15 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
     map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
+        alt((
+            map(path_one_in_property_set, |one| vec![one]),
+            map(nil, |_| Vec::new()),
+            delimited(
+                terminated(tag("("), sp),
+                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+        )),
         PathNegatedPropertySet,
     )(i)
 }
-- 
2.43.0


From 4d1866cc789ef52eee387379a0f5cfccaae1b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 09/34] fix: the keyword `a` is case sensitive

It is the one SPARQL keyword that is; `A` is no verb.
---
 src/expression/iri.rs | 4 ++--
 src/var.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 4c4a7a7..3b37f49 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::{iri, sp};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{pair, preceded};
@@ -20,7 +20,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(tag("a"), |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/var.rs b/src/var.rs
index 396ef2c..bab24b1 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -62,7 +62,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
     alt((
         map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
+        map(tag("a"), |_| Verb::A),
     ))(i)
 }
 
-- 
2.43.0


From 6432a5001709fff3b2cbfbec28bbea781617c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 10/34] fix: empty entries in property lists with paths

A `;` need not be followed by another verb.
---
 src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 8488377..d7910ba 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -152,7 +152,10 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
         tuple((
             terminated(verb_path_or_simple, sp),
             object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            terminated(
+                many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+                many0(preceded(sp, char(';'))),
+            ),
         )),
         |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
             verb_path_or_simple,
-- 
2.43.0


From 4bc6640851ded01ac4c06da834a17bcf81677194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 11/34] fix: dots between triples

A block of triples may end in a dot, takes exactly one dot between two
triples, and `.5` is a number, not a dot; a group's patterns are separated by
'.', not '?'.
---
 src/graph.rs           |  4 ++--
 src/query/construct.rs |  5 ++---
 src/terminals.rs       |  5 +++++
 src/triple.rs          | 11 +++++++----
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a3e5a06..15344a5 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -21,7 +21,7 @@ use crate::{
     quads::{quads_pattern, Quads},
     query::select::{sub_select, SubSelect},
     terminals::{
-        anon, default_or_named_iri, iri, keyword, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, dot, iri, keyword, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -207,7 +207,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 10d2d2b..7f2cc52 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -11,8 +11,7 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::{many0, many1},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
     IResult,
@@ -89,7 +88,7 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            map(opt(triples_template), Option::unwrap_or_default),
             preceded(sp, char('}')),
         ),
         ConstructTemplate,
diff --git a/src/terminals.rs b/src/terminals.rs
index 12ac64b..51de7b7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -417,6 +417,11 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
     preceded(char('['), cut(terminated(sp, char(']'))))(i)
 }
 
+/// the dot that ends a triple, not the one that begins a decimal
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
     preceded(char('('), terminated(sp, char(')')))(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index 7a2918d..def5c7f 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -91,15 +91,18 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(sp_enc(dot), triples_same_subject_path),
+            opt(preceded(sp, dot)),
+        ),
         TriplesBlock,
     )(i)
 }
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
-        opt(preceded(sp, char('.'))),
+        separated_nonempty_list(sp_enc(dot), triples_same_subject),
+        opt(preceded(sp, dot)),
     )(i)
 }
 
-- 
2.43.0


From 1a977a49d964c5aadc0f61d0f727deeb2ab8608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 12/34] fix: layout in quads patterns

Whitespace may precede the dot and the triples after a GRAPH block, follow
the last entry, and GRAPH must end as a keyword.
---
 src/quads.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..8d25226 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, keyword, sp, sp_enc},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -40,7 +40,7 @@ pub struct QuadsNotTriples {
 }
 
 pub(crate) fn quads_pattern(i: &str) -> IResult<&str, Quads> {
-    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
+    delimited(terminated(tag("{"), sp), quads, preceded(sp, tag("}")))(i)
 }
 
 pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
@@ -49,7 +49,7 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(opt(terminated(triples_template, sp)), many0(terminated(quads_entry, sp))),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -60,7 +60,7 @@ pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
 pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
     map(
         tuple((
-            tag_no_case("graph"),
+            keyword("graph"),
             sp_enc(var_or_iri),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
         )),
@@ -73,7 +73,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, dot)),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
-- 
2.43.0


From 38909f92d7b512cbdecae849808eef44e625c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 13/34] fix: layout inside parentheses

---
 src/call.rs           | 2 +-
 src/expression/mod.rs | 6 +-----
 src/terminals.rs      | 4 ++--
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index deb0987..0fde77a 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -303,7 +303,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
                     map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 4149805..942b844 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -168,11 +168,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
     alt((
         map(nil, |_| ExpressionList::Nil),
         map(
-            delimited(
-                char('('),
-                separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
-            ),
+            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
             ExpressionList::List,
         ),
     ))(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 51de7b7..27af453 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -45,7 +45,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(char('('), sp_enc(pat), char(')'))
 }
 
 #[inline]
@@ -267,7 +267,7 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
     map(
-        pair(iri, opt(preceded(sp1, arg_list))),
+        pair(iri, opt(preceded(sp, arg_list))),
         |(iri, arg_list)| IriOrFunction { iri, arg_list },
     )(i)
 }
-- 
2.43.0


From ef06d5843e72509bdfb3871b964d72b97388ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 14/34] fix: ABS, CEIL, FLOOR and ROUND parse as URI

---
 src/call.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 0fde77a..9278096 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -120,10 +120,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
-- 
2.43.0


From 2965fa3130b3d2db5013b9460e8776846ac23088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 15/34] fix: CONTAINS is looked for under the name strlen

---
 src/call.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/call.rs b/src/call.rs
index 9278096..d113ba5 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -146,7 +146,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 2d535272f9a975b1484220907c9da650483b8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 16/34] fix: CONCAT/SUBSTR and STRLEN/REPLACE are separate
 functions

The two pairs were read as one production each, so that none of the four could
be called, and STRLEN's argument was parsed twice per nesting level.
---
 src/call.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index d113ba5..483c388 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -46,8 +46,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -125,17 +127,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
+            preceded_tag1("concat", expression_list),
             BuiltInCall::Concat,
         ),
         map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_tag1("strlen", bracketted_expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -163,6 +159,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
 
 fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
     alt((
+        map(substring_expression, BuiltInCall::SubStr),
+        map(
+            preceded_tag1("replace", str_replace_expression),
+            BuiltInCall::Replace,
+        ),
         map(
             preceded_bracketted(
                 "strends",
-- 
2.43.0


From 73fc89fd24e71ecce2f99e595bee571f31c8b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 17/34] fix: BNODE, RAND, NOW, UUID and STRUUID demand two
 pairs of parentheses

---
 src/call.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 483c388..1af36e5 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,9 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, keyword, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc},
+    terminals::{
+        iri, keyword, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+    },
     var::{var, Var},
 };
 
@@ -115,13 +117,16 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((
+                    map(nil, |_| None),
+                    map(bracketted_expression, Option::Some),
+                )),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
@@ -202,9 +207,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| {
             BuiltInCall::StrUUID
         }),
     ))(i)
-- 
2.43.0


From b6f1144185022842d6a3580fc4af95798cb98fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 18/34] fix: signed numbers are numeric literals

`-5` in an expression was the operator `-` applied to 5 (and i64::MIN out of
reach), `?x -5` a subtraction, while `1 2` was accepted as an addition.
---
 src/arithmetic.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index be37741..b365fe1 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,11 +1,11 @@
 use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
+use crate::literal::{numeric_literal, sign, NumericLiteral};
 use crate::terminals::{keyword, preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{delimited, pair, preceded, terminated};
 use nom::IResult;
@@ -109,9 +109,9 @@ impl fmt::Display for Sign {
 pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
     alt((
         map(preceded_tag("!", primary_expression), UnaryExpression::Not),
+        map(primary_expression, UnaryExpression::Default),
         map(preceded_tag("+", primary_expression), UnaryExpression::Add),
         map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
-        map(primary_expression, UnaryExpression::Default),
     ))(i)
 }
 
@@ -127,17 +127,9 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
 
 pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
     alt((
-        map(
-            preceded_tag("+", multiplicative_expression),
-            AddExpression::Add,
-        ),
-        map(
-            preceded_tag("-", multiplicative_expression),
-            AddExpression::Sub,
-        ),
         map(
             pair(
-                numeric_literal,
+                preceded(peek(sign), numeric_literal),
                 many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
@@ -145,6 +137,14 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
                 expressions,
             },
         ),
+        map(
+            preceded_tag("+", multiplicative_expression),
+            AddExpression::Add,
+        ),
+        map(
+            preceded_tag("-", multiplicative_expression),
+            AddExpression::Sub,
+        ),
     ))(i)
 }
 
-- 
2.43.0


From c17589704117dd2dc1e08bc56598cdd825e9406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 19/34] fix: exponent commits to a number followed by e

A name starting with `e` right after a number was an Err::Failure.
---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 1a6fb5a..9d61e65 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,4 +1,4 @@
-use nom::combinator::{cut, opt, recognize};
+use nom::combinator::{opt, recognize};
 use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
@@ -121,7 +121,7 @@ pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
     preceded(
         alt((char('e'), char('E'))),
         map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
             |s: &str| s.parse::<i64>(),
         ),
     )(i)
-- 
2.43.0


From 11f0d392c5fc26e6eee6e008e89c8dd1ef1169cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 20/34] fix: empty string literals are rejected

nom's `escaped` fails on an empty match.
---
 src/terminals.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 27af453..6b84dde 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -145,12 +145,18 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            map(
+                opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
             tag("'"),
         ),
         delimited(
             tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            map(
+                opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
             tag("\""),
         ),
     ))(i)
-- 
2.43.0


From cb6d8e5673b0345a10d6a1e1d5a16f7cd93394ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 21/34] fix: long string literals

`'''...'''` and `"""..."""` were read as an empty string and garbage.
---
 src/terminals.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6b84dde..ccbb8c4 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -143,6 +143,8 @@ pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
 /// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
 pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
+        delimited(tag("'''"), long_string_content('\''), tag("'''")),
+        delimited(tag("\"\"\""), long_string_content('"'), tag("\"\"\"")),
         delimited(
             tag("'"),
             map(
@@ -162,6 +164,18 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     ))(i)
 }
 
+/// up to two quotes at a time, each time followed by something that is no quote
+fn long_string_content<'a>(quote: char) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    recognize(many0(tuple((
+        opt(char(quote)),
+        opt(char(quote)),
+        alt((
+            recognize(pair(char('\\'), one_of(r#""tbnrf\'"#))),
+            take_while_m_n(1, 1, move |c| c != quote && c != '\\'),
+        )),
+    ))))
+}
+
 pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
-- 
2.43.0


From fb1739e27e2655964750c22514fb3791ac25d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 22/34] fix: layout between a string and its language tag or
 datatype

---
 src/terminals.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index ccbb8c4..a1c19dd 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -180,13 +180,19 @@ pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
             map(string_literal, String::from),
-            opt(alt((
-                map(
-                    map(language_tag, String::from),
-                    RdfLiteralDescriptor::LangTag,
-                ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
-            ))),
+            opt(preceded(
+                sp,
+                alt((
+                    map(
+                        map(language_tag, String::from),
+                        RdfLiteralDescriptor::LangTag,
+                    ),
+                    map(
+                        preceded(pair(tag("^^"), sp), iri),
+                        RdfLiteralDescriptor::IriRef,
+                    ),
+                )),
+            )),
         ),
         |(literal, descriptor)| RdfLiteral {
             literal,
-- 
2.43.0


From 912eb7cddbdb0eb017f6dadb24c6865d51b5f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 23/34] fix: compatible_arg on simple literals; xsd:string
 arguments are Typed

The Simple arm accepted exactly what its documentation excludes.
---
 src/literal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 9d61e65..36b8f21 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
@@ -78,7 +78,7 @@ pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
                 map(string_literal, String::from),
                 tag_no_case("^^xsd:string"),
             ),
-            StringLiteral::Simple,
+            StringLiteral::Typed,
         ),
         map(
             pair(
-- 
2.43.0


From ad55ab995355e58a9e8cd5c1d91a89c826fba0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 24/34] fix: character classes truncate code points to a byte

`c as u8` made U+0141 a letter, U+0130 a digit and dropped legal IRI characters;
U+10000..U+EFFFF and the combining characters of PN_CHARS and VARNAME were missing.
---
 src/clauses.rs   |  4 ++--
 src/graph.rs     |  5 ++---
 src/terminals.rs | 26 +++++++++++++++++---------
 src/var.rs       |  5 ++---
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index fc42ed7..e82f245 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
+    character::complete::digit1,
     combinator::map_res,
     combinator::{map, opt},
     multi::many1,
@@ -120,7 +120,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), digit1),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index 15344a5..fa4d286 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,12 +1,11 @@
 use nom::{
     branch::alt,
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
     sequence::separated_pair,
     sequence::{delimited, pair, preceded, terminated},
-    IResult,
+    AsChar, IResult,
 };
 
 use crate::expression::functions::{filter, Constraint};
@@ -264,7 +263,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_dec_digit()))),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index a1c19dd..43a46d0 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -3,11 +3,7 @@ use nom::{
     bytes::complete::take_while,
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
-    character::{
-        complete::{alpha1, alphanumeric1},
-        is_alphabetic,
-    },
-    character::{is_alphanumeric, is_digit},
+    character::complete::{alpha1, alphanumeric1},
     combinator::recognize,
     combinator::{complete, cond, cut, map, map_res, not, opt, peek},
     error::ErrorKind,
@@ -260,7 +256,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > '\u{20}'
             }
         }),
         tag(">"),
@@ -330,7 +326,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_dec_digit()),
             plx,
         )),
         recognize(pair(
@@ -373,6 +369,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -396,7 +393,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
@@ -426,7 +423,18 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
 
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_combining(i)
+}
+
+/// may continue, but not begin, a name
+#[inline]
+pub(crate) fn is_combining(c: char) -> bool {
+    match c {
+        '\u{00B7}' => true,
+        '\u{0300}'..='\u{036F}' => true,
+        '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index bab24b1..14843ce 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_combining, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_combining(c)),
     ))(i)
 }
 
-- 
2.43.0


From dceabd141afa82a31a0648a257fa0fa20687b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 25/34] fix: names swallow the dot that follows them

Neither a prefix nor a local name nor a blank node label ends in a dot.
---
 src/terminals.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 43a46d0..267f816 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -297,10 +297,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(pair(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -329,13 +326,10 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c: char| c.is_dec_digit()),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
+        recognize(many0(pair(
+            take_while(|c| c == '.'),
+            many1(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From edd456c6595b8cb1fe033b072d31998cd5299a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 26/34] fix: whitespace inside names and variables

`?  x`, `ex :p`, `ex: p` and `_: b` are no tokens; `?s : ?o` lost its object.
---
 src/graph.rs     | 2 +-
 src/terminals.rs | 4 ++--
 src/var.rs       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index fa4d286..6cf896a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -260,7 +260,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_dec_digit()))),
diff --git a/src/terminals.rs b/src/terminals.rs
index 267f816..b9da187 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -338,11 +338,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 14843ce..4477d0d 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From bc779fc77df57842e843ab6251432a988781391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 27/34] fix: Modify operations: WITH and DELETE

The graph was introduced by WHERE without layout, the delete clause by OFFSET.
---
 src/clauses.rs    | 2 +-
 src/operations.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index e82f245..ebbcd0f 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -106,7 +106,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
diff --git a/src/operations.rs b/src/operations.rs
index 77dea87..ae6aff9 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, keyword, preceded_tag1, sp, sp1, sp_enc},
+    terminals::{iri, keyword, preceded_tag1, sp, sp_enc},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -95,7 +95,7 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(preceded_tag1("with", terminated(iri, sp))),
             terminated(delete_insert, sp),
             many0(preceded(sp, using_clause)),
             sp_enc(keyword("where")),
-- 
2.43.0


From 4ec364e1a56c7f55e3117f4108312edee5b4ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 28/34] fix: keywords match non-ASCII look-alikes and panic

nom's tag_no_case compares Unicode lower case and then splits the input at the
byte length of the tag: `AS\u{212A}` panicked on a character boundary.
---
 src/aggregate.rs    |  3 +--
 src/arithmetic.rs   |  4 ++--
 src/call.rs         |  2 +-
 src/clauses.rs      |  4 ++--
 src/data.rs         |  4 ++--
 src/graph.rs        |  2 +-
 src/group.rs        |  4 ++--
 src/literal.rs      |  4 ++--
 src/operations.rs   |  2 +-
 src/path.rs         |  2 +-
 src/quads.rs        |  2 +-
 src/query/select.rs |  2 +-
 src/terminals.rs    | 12 +++++++++++-
 src/triple.rs       |  2 +-
 src/var.rs          |  2 +-
 15 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index cf40f31..36c34a3 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,11 +1,10 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index b365fe1..cbdcbb1 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,9 +2,9 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, sign, NumericLiteral};
-use crate::terminals::{keyword, preceded_tag, sp, sp1, sp_enc};
+use crate::terminals::{keyword, preceded_tag, sp, sp1, sp_enc, tag_no_case};
 use nom::branch::alt;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{delimited, pair, preceded, terminated};
diff --git a/src/call.rs b/src/call.rs
index 1af36e5..00d9fd6 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -22,6 +21,7 @@ use crate::{
     literal::distinct,
     terminals::{
         iri, keyword, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        tag_no_case,
     },
     var::{var, Var},
 };
diff --git a/src/clauses.rs b/src/clauses.rs
index ebbcd0f..3f1aff1 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::digit1,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, keyword, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, keyword, preceded_tag1, sp, sp1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..9279e48 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,7 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
     var::{var, Var},
 };
 
diff --git a/src/graph.rs b/src/graph.rs
index 6cf896a..6056d46 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     combinator::map_res,
     combinator::{map, opt},
     sequence::separated_pair,
diff --git a/src/group.rs b/src/group.rs
index 07aedaf..0547560 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,7 +3,7 @@ use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{keyword, sp, sp1};
+use crate::terminals::{keyword, sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 36b8f21..2718acb 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{keyword, language_tag, rdf_literal, string_literal};
+use crate::terminals::{keyword, language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index ae6aff9..4827d15 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
diff --git a/src/path.rs b/src/path.rs
index d7910ba..5830458 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -6,7 +6,7 @@ use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
diff --git a/src/quads.rs b/src/quads.rs
index 8d25226..d776fd6 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
diff --git a/src/query/select.rs b/src/query/select.rs
index a60b16c..c172287 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many0, many1};
diff --git a/src/terminals.rs b/src/terminals.rs
index b9da187..a07b48a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::complete::{alpha1, alphanumeric1},
     combinator::recognize,
@@ -55,6 +55,16 @@ where
     preceded(terminated(keyword(tag), sp), pat)
 }
 
+/// Folds ASCII letters only: nom's `tag_no_case` takes `İ` for an `i` and the
+/// Kelvin sign for a `k`, and then splits the input at the length of the tag.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(s) if s.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], s)),
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 /// a case insensitive keyword that is not merely the beginning of a longer name
 #[inline]
 pub(crate) fn keyword<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
diff --git a/src/triple.rs b/src/triple.rs
index def5c7f..4221427 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
diff --git a/src/var.rs b/src/var.rs
index 4477d0d..16bcab6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -4,7 +4,7 @@ use crate::node::ObjectList;
 use crate::terminals::{iri, is_combining, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0


From 9fe5de44efd4cf8c9013364ac5bf04050e349a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 29/34] fix: comment at the end of the input

---
 src/terminals.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index a07b48a..2419430 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -96,10 +96,10 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
-    ))(i)
+    recognize(alt((
+        recognize(pair(char('#'), many0(none_of("\n\r")))),
+        recognize(one_of("\r\n")),
+    )))(i)
 }
 
 #[inline]
-- 
2.43.0


From 5882be6372c60e38fc90364c7ce18c8e4d713871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 30/34] fix: layout around prologue declarations

Layout may precede the first declaration and is optional between two.
---
 src/terminals.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 2419430..579a32e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -7,7 +7,7 @@ use nom::{
     combinator::recognize,
     combinator::{complete, cond, cut, map, map_res, not, opt, peek},
     error::ErrorKind,
-    multi::{fold_many0, separated_list},
+    multi::fold_many0,
     multi::{many0, many1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
     AsChar, Err, IResult,
@@ -231,13 +231,13 @@ pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
 }
 
 pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+    preceded(terminated(keyword("base"), sp), iri_ref)(i)
 }
 
 pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
     map(
         tuple((
-            tag_no_case("prefix"),
+            keyword("prefix"),
             sp_enc(pname_ns),
             map(iri_ref, String::from),
         )),
@@ -247,13 +247,13 @@ pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
 
 pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
     map(
-        separated_list(
-            sp1,
+        many0(preceded(
+            sp,
             alt((
                 map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                 map(prefix_decl, BaseOrPrefixDecl::Prefix),
             )),
-        ),
+        )),
         Prologue,
     )(i)
 }
-- 
2.43.0


From 4189643e7ad149ce46fc7c07ce86fe45a7c4fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 31/34] fix: layout between projected variables

---
 src/query/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/select.rs b/src/query/select.rs
index c172287..c6bd7d2 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -99,7 +99,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            many1(preceded(sp, var_or_expression_as_var)),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
-- 
2.43.0


From 0238a061d83c3a3b5c4aa61afcb934063991543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 32/34] fix: ADD and MOVE are no update operations

---
 src/update.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..7adea96 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,8 +8,8 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
     DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From 70e6db9159813aabaef60a7f69483e486e0238da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 33/34] fix: keywords swallow the start of dotted prefixes

---
 src/terminals.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 579a32e..c1b8756 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -70,7 +70,10 @@ pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a s
 pub(crate) fn keyword<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
     terminated(
         tag_no_case(tag),
-        not(take_while_m_n(1, 1, |c| is_pn_char(c) || c == ':')),
+        not(alt((
+            take_while_m_n(1, 1, is_pn_char),
+            terminated(pn_chars_tail, char(':')),
+        ))),
     )
 }
 
-- 
2.43.0


From cc577e0aee9cdaddc5d517854717ebd07aa9745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 34/34] fix: long strings in time proportional to their length

---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index c1b8756..38d234d 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -180,7 +180,7 @@ fn long_string_content<'a>(quote: char) -> impl Fn(&'a str) -> IResult<&'a str,
         opt(char(quote)),
         alt((
             recognize(pair(char('\\'), one_of(r#""tbnrf\'"#))),
-            take_while_m_n(1, 1, move |c| c != quote && c != '\\'),
+            take_while1(move |c| c != quote && c != '\\'),
         )),
     ))))
 }
-- 
2.43.0

