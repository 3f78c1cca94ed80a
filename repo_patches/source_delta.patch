From 2436f892f1458fd04b9e950ff691f4aafd1e7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 01/52] fix: return the joined data frame from the lookup
 command

The join and selection were built and then discarded: `lookup` only aliased its input.
---
 src/commands/cmd_lookup/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
-- 
2.43.0


From c54fed86b1ceba79c5ac0bf66e6facc1dc1d9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 02/52] fix: reject a negative limit in the head command

`head -1` was cast to u64 and became `.limit(18446744073709551615,)`; `count<=9223372036854775807` overflowed.
---
 src/commands/cmd_head/pyspark.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..50a01b8 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -12,7 +12,7 @@ impl PipelineTransformer for HeadCommand {
 
         let limit = match self.eval_expr.clone() {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Int(ast::IntValue(limit)))) => {
-                limit
+                u64::try_from(limit)?
             }
             ast::Expr::Binary(ast::Binary {
                 left,
@@ -27,7 +27,7 @@ impl PipelineTransformer for HeadCommand {
                 let limit_value = match limit_expr {
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Int(
                         ast::IntValue(limit),
-                    ))) => limit,
+                    ))) => u64::try_from(limit)?,
                     _ => bail!("Unable to find a constant integer being compared against `count`"),
                 };
                 let limit = match (was_left, symbol.as_str()) {
@@ -48,7 +48,7 @@ impl PipelineTransformer for HeadCommand {
             ),
         };
 
-        df = df.limit(limit as u64);
+        df = df.limit(limit);
         Ok(state.with_df(df))
     }
 }
-- 
2.43.0


From a45843b06a5accf4e4aa1a669890d242efbe133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 03/52] fix: reject a negative limit in the sort command

`sort -5 x` style counts were cast to u64 and became an enormous limit.
---
 src/commands/cmd_sort/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index c5ee775..913dac9 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -62,7 +62,7 @@ impl PipelineTransformer for SortCommand {
         df = df.order_by(sort_fields?);
 
         if self.count != 0 {
-            df = df.limit(self.count as u64);
+            df = df.limit(u64::try_from(self.count)?);
         }
 
         Ok(state.with_df(df))
-- 
2.43.0


From c87853d08aad588dd7c88292c45f0d63ffba49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 04/52] fix: report a join without fields as an error instead
 of panicking

---
 src/commands/cmd_join/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..9ab6fdf 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -45,7 +45,7 @@ impl PipelineTransformer for JoinCommand {
                 })
                 .collect(),
         )
-        .unwrap();
+        .ok_or(anyhow!("No fields to join on"))?;
 
         let condition = match (self.use_time, self.earlier) {
             (true, true) => {
-- 
2.43.0


From 3b203a51d9a12267c8eedb8c130bacd06742af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 05/52] fix: combine the indexes of a search in a stable order

They were taken from a HashSet, so the same query could give different code from one run to the next.
---
 src/commands/cmd_search/pyspark.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..2c09b41 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -178,8 +178,11 @@ impl PipelineTransformer for SearchCommand {
         let mut indices = HashSet::new();
         let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
         let mut df = if !indices.is_empty() {
+            // The set has no stable order; the generated code must not depend on it.
+            let mut indices: Vec<_> = indices.into_iter().collect();
+            indices.sort();
             let mut _df: Option<DataFrame> = None;
-            for new_index in indices.into_iter() {
+            for new_index in indices {
                 let new_source = DataFrame::source(new_index);
                 _df = match (_df, new_source) {
                     (None, new_source) => Some(new_source),
-- 
2.43.0


From 91cbc59ad9e347acc9ae647e2021ac840bc9f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 06/52] fix: report out-of-range mvindex indices as an error
 instead of overflowing

---
 src/functions/eval_fns.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..65091dc 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -9,7 +9,7 @@ use crate::pyspark::base::{
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
-use anyhow::{bail, ensure, Result};
+use anyhow::{anyhow, bail, ensure, Result};
 use log::warn;
 use std::any::type_name;
 use std::ops::Deref;
@@ -517,7 +517,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    let (first, length) = start
+                        .checked_add(1)
+                        .zip(end.checked_sub(start).and_then(|n| n.checked_add(1)))
+                        .ok_or(anyhow!("Indices of mvindex out of range"))?;
+                    column_like!(slice([x], [py_lit(first)], [py_lit(length)]))
                 },
             }
         }),
-- 
2.43.0


From a5479cdbd122667a2c38d4cacfd00e774c42f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 07/52] fix: keep the statements of runtime data frames out of
 expressions

A data frame used as the source of a method call was spliced in with the statements it needs, which is not valid Python unless it is the first thing on the line: `index=foo | head 5 | stats count` with the runtime allowed gave `df_2 = commands.stats(df_1 = commands.search(...)`.
---
 src/pyspark/ast.rs | 91 +++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 46 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..b11e6e4 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -357,7 +357,11 @@ impl ToSparkQuery for PyDict {
             out_preface.extend(preface);
             out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
         }
-        Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
+        Ok(PythonCode::new(
+            format!(r#"{{ {} }}"#, out_vals.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -400,7 +404,11 @@ impl ToSparkQuery for PyList {
             out_preface.extend(preface);
             out_vals.push(primary_df_code);
         }
-        Ok(format!(r#"[ {} ]"#, out_vals.join(", ")).into())
+        Ok(PythonCode::new(
+            format!(r#"[ {} ]"#, out_vals.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -471,7 +479,11 @@ impl ToSparkQuery for PyRuntimeFunc {
             out_args.push(format!("{}={}", key, primary_df_code).to_string());
         }
 
-        Ok(format!("functions.{}({})", self.name, out_args.join(", ")).into())
+        Ok(PythonCode::new(
+            format!("functions.{}({})", self.name, out_args.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -771,7 +783,14 @@ impl Default for DataFrame {
 
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
-        match self {
+        // A data frame used inside an expression leaves its own statements in front of the whole.
+        let mut inlined_preface = vec![];
+        let mut inline = |df: &DataFrame| -> Result<String> {
+            let code = df.to_spark_query(ctx)?;
+            inlined_preface.extend(code.preface);
+            Ok(code.primary_df_code)
+        };
+        let code: Result<PythonCode> = match self {
             DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
@@ -827,16 +846,11 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.select({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                Ok(format!("{}.select({},)", inline(source)?, columns?.join(", ")).into())
             }
             DataFrame::Where { source, condition } => Ok(format!(
                 "{}.where({},)",
-                source.to_spark_query(ctx)?,
+                inline(source)?,
                 condition.to_spark_query(ctx)?,
             )
             .into()),
@@ -846,24 +860,14 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
-                    "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
-                    columns?.join("")
-                )
-                .into())
+                Ok(format!("{}.groupBy([{}])", inline(source)?, columns?.join("")).into())
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                Ok(format!("{}.agg({},)", inline(source)?, columns?.join(", ")).into())
             }
             DataFrame::WithColumn {
                 source,
@@ -871,7 +875,7 @@ impl ToSparkQuery for DataFrame {
                 name,
             } => Ok(format!(
                 "{}.withColumn('{}', {},)",
-                source.to_spark_query(ctx)?,
+                inline(source)?,
                 name,
                 column.to_spark_query(ctx)?,
             )
@@ -882,7 +886,7 @@ impl ToSparkQuery for DataFrame {
                 new_name,
             } => Ok(format!(
                 "{}.withColumnRenamed('{}', '{}',)",
-                source.to_spark_query(ctx)?,
+                inline(source)?,
                 old_name,
                 new_name,
             )
@@ -892,24 +896,19 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                Ok(format!("{}.orderBy({},)", inline(source)?, columns?.join(", ")).into())
             }
             DataFrame::UnionByName { source, other } => Ok(format!(
                 "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
+                inline(source)?,
+                inline(other)?,
             )
             .into()),
             DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
+                Ok(format!("{}.limit({},)", inline(source)?, limit).into())
             }
             DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
+                Ok(format!("{}.tail({})", inline(source)?, limit).into())
             }
             DataFrame::Join {
                 source,
@@ -918,14 +917,14 @@ impl ToSparkQuery for DataFrame {
                 join_type,
             } => Ok(format!(
                 "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
+                inline(source)?,
+                inline(other)?,
                 condition.to_spark_query(ctx)?,
                 join_type
             )
             .into()),
             DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
+                Ok(format!("{}.alias('{}',)", inline(source)?, name,).into())
             }
             DataFrame::ArbitraryMethod {
                 source,
@@ -936,15 +935,15 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
-                    method,
-                    params?.join(",")
-                )
-                .into())
+                Ok(format!("{}.{}({},)", inline(source)?, method, params?.join(",")).into())
             }
-        }
+        };
+        let PythonCode {
+            preface,
+            primary_df_code,
+        } = code?;
+        inlined_preface.extend(preface);
+        Ok(PythonCode::new(primary_df_code, inlined_preface, None))
     }
 }
 
-- 
2.43.0


From d7c7899a206fc349f323a1a00cce36928ea5e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 08/52] fix: parenthesise a negation that a method is called on

`eval z=tonumber(NOT x)` gave `~F.col('x').cast("double")`, which negates the cast instead.
---
 src/pyspark/ast.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index b11e6e4..8ec518b 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -228,7 +228,7 @@ impl ToSparkQuery for ColumnLike {
                     .collect();
                 Ok(format!(
                     "{}.{}({})",
-                    col.to_spark_query(ctx)?,
+                    col.to_spark_receiver(ctx)?,
                     func,
                     args?.join(", ")
                 ))
@@ -246,7 +246,7 @@ impl ToSparkQuery for ColumnLike {
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
             ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
+                Ok(format!("{}.alias('{}')", col.to_spark_receiver(ctx)?, name))
             }
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
@@ -279,6 +279,17 @@ impl ToSparkQuery for Expr {
     }
 }
 
+impl Expr {
+    /// The code of an expression that a method is called on, where `~x` needs parentheses.
+    fn to_spark_receiver(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
+        let code = self.to_spark_query(ctx)?;
+        match self {
+            Expr::Column(ColumnLike::UnaryNot { .. }) => Ok(format!("({})", code).into()),
+            _ => Ok(code),
+        }
+    }
+}
+
 impl From<ColumnLike> for Expr {
     fn from(val: ColumnLike) -> Self {
         Expr::Column(val)
-- 
2.43.0


From b1f28eeaba9b92e9f0b019474122da668aef406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 09/52] fix: group chains of * and / from the left (a / b * c
 was parsed as a / (b * c))

---
 src/spl/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..84a3c0a 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -984,22 +984,23 @@ pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
 }
 
 pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr2,
-            opt(pair(
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr2,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        |(first, rest)| {
+            rest.into_iter().fold(first, |left, (op, right)| {
+                ast::Binary::new(left, op, right).into()
+            })
         },
-    ),))(input)
+    )(input)
 }
 
 pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From c12b3295ae613904caf5883b9fc49ff415d59c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:27 +0000
Subject: [PATCH 10/52] fix: AND, OR, NOT and AS are words, not the beginnings
 of field names (android=1, order=2, notable=1, asset)

---
 src/spl/operators.rs |  9 ++++++++-
 src/spl/parser.rs    | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..5d9029d 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,3 +1,4 @@
+use crate::spl::parser::keyword;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::{multispace0, multispace1};
@@ -16,12 +17,18 @@ pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +36,7 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        alt((keyword("AND"), tag(" ")))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 84a3c0a..624d6b6 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -418,6 +418,14 @@ pub fn token(input: &str) -> IResult<&str, &str> {
     )(input)
 }
 
+/// A word of the language, in any letter case, which does not merely begin a longer word
+pub fn keyword<'a>(word: &'static str) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag_no_case(word),
+        not(alt((recognize(one_of("_*:/-%{}@\\.")), alphanumeric1))),
+    )
+}
+
 pub fn token_with_extras(input: &str) -> IResult<&str, &str> {
     verify(
         recognize(many1(alt((
@@ -1124,7 +1132,7 @@ pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
 //   def aliasedField[_: P]: P[Alias] = field ~ W("AS") ~ (token|doubleQuoted) map Alias.tupled
 pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
     map(
-        separated_pair(field, ws(tag_no_case("AS")), alt((token, double_quoted))),
+        separated_pair(field, ws(keyword("AS")), alt((token, double_quoted))),
         |(field, alias)| ast::AliasedField {
             field,
             alias: alias.into(),
@@ -1135,7 +1143,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(tag_no_case("as")), token),
+        separated_pair(call, ws(keyword("as")), token),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
@@ -1299,7 +1307,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(keyword("OR")), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1307,7 +1315,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(keyword("AND")), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1318,7 +1326,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(keyword("NOT")), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 7e90e720f6bc9cb2c2b4fbbd91e8b53ce2ada65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 11/52] fix: lookup: OUTPUTNEW was never recognised (OUTPUT
 matched its first half)

---
 src/commands/cmd_lookup/spl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/spl.rs b/src/commands/cmd_lookup/spl.rs
index a1d1338..c19ae20 100644
--- a/src/commands/cmd_lookup/spl.rs
+++ b/src/commands/cmd_lookup/spl.rs
@@ -57,7 +57,7 @@ pub fn field_rep(input: &str) -> IResult<&str, Vec<FieldLike>> {
 fn lookup_output(input: &str) -> IResult<&str, LookupOutput> {
     map(
         separated_pair(
-            alt((tag_no_case("OUTPUT"), tag_no_case("OUTPUTNEW"))),
+            alt((tag_no_case("OUTPUTNEW"), tag_no_case("OUTPUT"))),
             multispace1,
             field_rep,
         ),
-- 
2.43.0


From 6648790bbb3c5487f9b74bb1061288fad4324cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 12/52] fix: stats: a negative number of partitions became a
 huge one

---
 src/commands/cmd_stats/spl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_stats/spl.rs b/src/commands/cmd_stats/spl.rs
index 0348624..81144c2 100644
--- a/src/commands/cmd_stats/spl.rs
+++ b/src/commands/cmd_stats/spl.rs
@@ -58,7 +58,7 @@ impl TryFrom<ParsedCommandOptions> for StatsCommandOptions {
 
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
-            partitions: value.get_int("partitions", 1)? as usize,
+            partitions: value.get_int("partitions", 1)?.try_into()?,
             all_num: value.get_boolean("allnum", false)?,
             delim: value.get_string("delim", " ")?,
         })
-- 
2.43.0


From 99a654aa4212777a0255fd2f490b1d1865fbb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 13/52] fix: a boolean constant rendered as true/false, which
 is not Python

---
 src/pyspark/transpiler/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..311fe63 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -96,7 +96,10 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(ColumnLike::Literal {
+                    code: PyLiteral::from(val).0,
+                }
+                .into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From eea49ba95446c42478f10eb73a3c36bdfee842fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 14/52] fix: bin: the window was computed on a column n instead
 of the field that is binned

---
 src/commands/cmd_bin/pyspark.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..2959ea7 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -1,5 +1,6 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
@@ -10,15 +11,16 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (col_name, source) = match self.field.clone() {
+            FieldOrAlias::Field(field) => (field.0.clone(), ast::Expr::from(field)),
+            FieldOrAlias::Alias(ast::Alias { name, expr }) => (name, *expr),
         };
         if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
             let span = format!("{} {}", value, scale);
+            let source: Expr = source.with_context(&state.ctx).try_into()?;
             df = df.with_column(
                 col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
+                column_like!(window([source], [py_lit(span)])),
             );
         }
         let subfield = "start";
-- 
2.43.0


From b053d1b1b4204973e608ada194dc250788e3445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 15/52] fix: makeresults: splunk_server_group was rendered
 without quotes

---
 src/commands/cmd_make_results/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..34e7c03 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -34,7 +34,7 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(format!("\"{}\"", group))),
                         None => column_like!(lit(None)),
                     },
                 );
-- 
2.43.0


From 028a799481a4ab90b6d956528ee179fb6b12ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:40 +0000
Subject: [PATCH 16/52] fix: fields -: the listed fields were kept instead of
 removed

---
 src/commands/cmd_fields/pyspark.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..957342b 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,15 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names: Vec<Expr> = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| PyLiteral::from(name.clone()).into())
+                .collect();
+            return Ok(state.with_df(df.arbitrary_method("drop", names)));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
-- 
2.43.0


From 9175c07432fad33d6e7f1269e49d32fb1ef421d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 17/52] fix: fillnull: without the runtime every column was
 filled instead of the listed ones

---
 src/commands/cmd_fill_null/pyspark.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..d48a809 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,15 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        let mut params: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Some(fields) = self.fields.clone() {
+            let names: Vec<String> = fields
+                .into_iter()
+                .map(|f| PyLiteral::from(f.0).0)
+                .collect();
+            params.push(PyLiteral(format!("[{}]", names.join(", "))).into());
+        }
+        let df = df.arbitrary_method("fillna", params);
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 4f0106eeaa55a42090dee05d579e831326a871b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 18/52] fix: log(x, base): the arguments reached Spark's log in
 the wrong order

---
 src/functions/eval_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 65091dc..fe53300 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -468,7 +468,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args] (x, base) { column_like!([log([x])] / [log([base])]) }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
-- 
2.43.0


From d581cde86a0c070848848618e0f91788b02c2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:41 +0000
Subject: [PATCH 19/52] fix: range(x) became an aggregate of an aggregate

---
 src/functions/stat_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..c72e517 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -162,7 +162,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 1d3af14f02e4f66430803792ad5c360a06b39b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:05 +0000
Subject: [PATCH 20/52] fix: top, rare: countfield= was not used for the
 percentage and the order

---
 src/commands/cmd_rare/pyspark.rs | 4 ++--
 src/commands/cmd_top/pyspark.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 4b7c1b0..454140a 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -30,11 +30,11 @@ impl PipelineTransformer for RareCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].asc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].asc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 3e3343e..2922ece 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -30,11 +30,11 @@ impl PipelineTransformer for TopCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].desc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].desc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
-- 
2.43.0


From f96b1505adf3a30d4f9b9e2f0ec075a1c317e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 21/52] fix: mvindex, mvzip, relative_time: surplus arguments
 were ignored

---
 src/functions/eval_fns.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index fe53300..a323e11 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -349,6 +349,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
         "relative_time" => function_transform!(now [args ...] (time) {
+            if args.len() > 2 {
+                bail!("`relative_time` function takes at most 2 arguments");
+            }
             let relative_time_spec = match args.get(1).map(Deref::deref) {
                 Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
@@ -513,6 +516,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvindex(<mv>,<start>,<end>)                         	 Returns a subset of the multivalue field using the start and end index values.
         "mvindex" => function_transform!(mvindex [args ...] (x, start: i64) {
+            if args.len() > 3 {
+                bail!("`mvindex` function takes at most 3 arguments");
+            }
             match args.get(2) {
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
@@ -543,6 +549,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvzip(<mv_left>,<mv_right>,<delim>)                 	 Combines the values in two multivalue fields. The delimiter is used to specify a delimiting character to join the two values.
         "mvzip" => function_transform!(mvzip [args -> _mapped_args] (left, right) {
+            if args.len() > 3 {
+                bail!("`mvzip` function takes at most 3 arguments");
+            }
             let delim: String = match args.get(2) {
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
-- 
2.43.0


From a3e50fc9d70f9f07956a75aa6fa220f2a65106ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:07 +0000
Subject: [PATCH 22/52] fix: a text constant with an apostrophe was rendered as
 broken Python

---
 src/pyspark/transpiler/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 311fe63..d55c5cd 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -88,8 +88,9 @@ impl ToSparkExpr for ast::Expr {
 
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
+                let quote = if val.contains("'") { "\"" } else { "'" };
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: format!("{}{}{}", quote, val, quote),
                 }
                 .into())
             }
-- 
2.43.0


From a8696420c7901a36d6fb8fafe14c26c322147712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 23/52] fix: top, rare, tail: a negative number of rows became
 a huge one

---
 src/commands/cmd_rare/spl.rs | 19 +++++++++++--------
 src/commands/cmd_tail/spl.rs |  4 ++--
 src/commands/cmd_top/spl.rs  | 19 +++++++++++--------
 src/functions/eval_fns.rs    |  4 +++-
 4 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..78ac210 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list0, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for RareCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: u64::try_from(value.get_int("limit", 10)?)?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -111,12 +111,15 @@ impl SplCommand<RareCommand> for RareParser {
 
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
         map(
-            tuple((
-                ws(opt(int)),
-                ws(Self::Options::match_options),
-                ws(field_list0),
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
-            )),
+            verify(
+                tuple((
+                    ws(opt(int)),
+                    ws(Self::Options::match_options),
+                    ws(field_list0),
+                    ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
+                )),
+                |(n, _, _, _)| n.as_ref().map_or(true, |i| i.0 >= 0),
+            ),
             |(n, opts, fields, by_fields)| RareCommand {
                 fields,
                 n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
diff --git a/src/commands/cmd_tail/spl.rs b/src/commands/cmd_tail/spl.rs
index f0187e9..ba08b83 100644
--- a/src/commands/cmd_tail/spl.rs
+++ b/src/commands/cmd_tail/spl.rs
@@ -2,7 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::int;
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::combinator::{map, verify};
 use nom::IResult;
 use pyo3::prelude::*;
 
@@ -35,6 +35,6 @@ impl SplCommand<TailCommand> for TailParser {
     type Options = TailCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TailCommand> {
-        map(int, |n| TailCommand { n: n.0 as u64 })(input)
+        map(verify(int, |n| n.0 >= 0), |n| TailCommand { n: n.0 as u64 })(input)
     }
 }
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..eab549e 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for TopCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: u64::try_from(value.get_int("limit", 10)?)?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -111,12 +111,15 @@ impl SplCommand<TopCommand> for TopParser {
 
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
         map(
-            tuple((
-                ws(opt(int)),
-                ws(Self::Options::match_options),
-                field_list1,
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
-            )),
+            verify(
+                tuple((
+                    ws(opt(int)),
+                    ws(Self::Options::match_options),
+                    field_list1,
+                    ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
+                )),
+                |(n, _, _, _)| n.as_ref().map_or(true, |i| i.0 >= 0),
+            ),
             |(n, opts, fields, by_fields)| TopCommand {
                 fields,
                 n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index a323e11..b779a83 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -471,7 +471,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!([log([x])] / [log([base])]) }),
+        "log" => {
+            function_transform!(log [args] (x, base) { column_like!([log([x])] / [log([base])]) })
+        }
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
-- 
2.43.0


From 343e5009dcc412407e3024a2b96cab037316edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 24/52] fix: tstats: BY PREFIX was silently dropped with the
 runtime library

---
 src/commands/cmd_t_stats/pyspark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..52a3525 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -36,6 +36,10 @@ impl PipelineTransformer for TStatsCommand {
             !self.include_reduced_buckets,
             "`tstats` only supports `include_reduced_buckets`=false"
         );
+        ensure!(
+            self.by_prefix.is_none(),
+            "UNIMPLEMENTED: `tstats` command does not yet support BY prefix"
+        );
 
         let mut all_kwargs = py_dict! {};
 
-- 
2.43.0


From 1efbf6b9f3e02716f2055b3354c138ddc8f0fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:04 +0000
Subject: [PATCH 25/52] fix: tstats: BY PREFIX(field) could not be parsed

---
 src/commands/cmd_t_stats/spl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..1d31d55 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -166,7 +166,6 @@ fn _parse_by(input: &str) -> IResult<&str, ByClause> {
             alt((
                 // Freaking seriously? This can be either a space-delimited or comma-delimited list
                 // WHY?!?
-                map(maybe_spanned_field_list1, |fields| (Some(fields), None)),
                 map(
                     ws(preceded(
                         tag_no_case("PREFIX"),
@@ -174,6 +173,7 @@ fn _parse_by(input: &str) -> IResult<&str, ByClause> {
                     )),
                     |Field(prefix_field)| (None, Some(prefix_field)),
                 ),
+                map(maybe_spanned_field_list1, |fields| (Some(fields), None)),
             )),
         ),
         |(fields, prefix)| ByClause { fields, prefix },
-- 
2.43.0


From c8fcea8a8f210c6fe22ffee5ce37bb38c26f6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 26/52] fix: join: overwrite=false was silently ignored

---
 src/commands/cmd_join/pyspark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 9ab6fdf..0bf43d7 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -17,6 +17,10 @@ impl PipelineTransformer for JoinCommand {
             self.max == 1,
             "UNIMPLEMENTED: Join with max != 1 not yet supported"
         );
+        ensure!(
+            self.overwrite,
+            "UNIMPLEMENTED: Join with overwrite=false not yet supported"
+        );
 
         let right_df: TransformedPipeline =
             TransformedPipeline::transform(self.sub_search.clone(), state.ctx.clone())?;
-- 
2.43.0


From ef3caa0398e1b1e3ac3a30e084fd37b2bc7fa84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 27/52] fix: rex: offset_field was silently ignored

---
 src/commands/cmd_rex/pyspark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..a2f47c4 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -19,6 +19,10 @@ impl PipelineTransformer for RexCommand {
             self.max_match == 1,
             "Rex not yet implemented for multiple matches"
         );
+        ensure!(
+            self.offset_field.is_none(),
+            "UNIMPLEMENTED: `rex` command does not yet support offset_field"
+        );
 
         let regex_groups = get_groups(self.regex.clone())?;
 
-- 
2.43.0


From d4182d6c0e6d167054a2e4a136fdbb029dab03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:02 +0000
Subject: [PATCH 28/52] fix: addtotals: row=false and col=true were silently
 ignored

---
 src/commands/cmd_add_totals/pyspark.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/cmd_add_totals/pyspark.rs b/src/commands/cmd_add_totals/pyspark.rs
index 9aa2952..a5ee7bf 100644
--- a/src/commands/cmd_add_totals/pyspark.rs
+++ b/src/commands/cmd_add_totals/pyspark.rs
@@ -1,12 +1,18 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::AddTotalsCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            self.row && !self.col,
+            "UNIMPLEMENTED: `addtotals` only supports totals per row"
+        );
+
         let cast_columns: Vec<ColumnLike> = self
             .fields
             .iter()
-- 
2.43.0


From 75dab4bd1e9d37ec2ec08b86e9849ca42be8347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:34 +0000
Subject: [PATCH 29/52] fix: bin: without a span the result was a column that
 does not exist

---
 src/commands/cmd_bin/pyspark.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 2959ea7..370eb73 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -4,12 +4,17 @@ use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::ensure;
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            self.span.is_some() && self.align_time.is_none(),
+            "UNIMPLEMENTED: `bin` command needs a span and does not yet support aligntime"
+        );
         let mut df = state.df.clone().unwrap_or_default();
         let (col_name, source) = match self.field.clone() {
             FieldOrAlias::Field(field) => (field.0.clone(), ast::Expr::from(field)),
-- 
2.43.0


From db1669b7278227e1fae0eafc88dc35b257b9dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:03 +0000
Subject: [PATCH 30/52] fix: top, rare: showcount=false was silently ignored

---
 src/commands/cmd_rare/pyspark.rs | 7 +++++++
 src/commands/cmd_top/pyspark.rs  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 454140a..bf90611 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -40,6 +40,13 @@ impl PipelineTransformer for RareCommand {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![PyLiteral::from(self.count_field.clone()).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 2922ece..1cdfbc7 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -40,6 +40,13 @@ impl PipelineTransformer for TopCommand {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![PyLiteral::from(self.count_field.clone()).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
-- 
2.43.0


From 629613328d02be425e047821f23e0f52ea496f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:31 +0000
Subject: [PATCH 31/52] fix: AND binds tighter than OR in expressions, as
 documented

---
 src/spl/parser.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 624d6b6..db18a79 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1083,21 +1083,40 @@ pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr8(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
-        pair(expr7, opt(pair(ws(operators::Or::pattern), expr8))),
+pub fn expr8_no_whitespace(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(
+            expr7,
+            opt(pair(ws(operators::And::pattern), expr8_no_whitespace)),
+        ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
             Some((op, right)) => ast::Binary::new(left, op, right).into(),
         },
-    ),))(input)
+    )(input)
+}
+
+pub fn expr8_with_whitespace(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(
+            expr7,
+            opt(pair(
+                alt((ws(operators::And::pattern), value("AND", multispace1))),
+                expr8_with_whitespace,
+            )),
+        ),
+        |(left, maybe_op_right)| match maybe_op_right {
+            None => left,
+            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        },
+    )(input)
 }
 
 pub fn expr9_no_whitespace(input: &str) -> IResult<&str, ast::Expr> {
     map(
         pair(
-            expr8,
-            opt(pair(ws(operators::And::pattern), expr9_no_whitespace)),
+            expr8_no_whitespace,
+            opt(pair(ws(operators::Or::pattern), expr9_no_whitespace)),
         ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
@@ -1109,11 +1128,8 @@ pub fn expr9_no_whitespace(input: &str) -> IResult<&str, ast::Expr> {
 pub fn expr9_with_whitespace(input: &str) -> IResult<&str, ast::Expr> {
     map(
         pair(
-            expr8,
-            opt(pair(
-                alt((ws(operators::And::pattern), value("AND", multispace1))),
-                expr9_with_whitespace,
-            )),
+            expr8_with_whitespace,
+            opt(pair(ws(operators::Or::pattern), expr9_with_whitespace)),
         ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
-- 
2.43.0


From 5f629a92f523fb5484312dcfb5656a1034b80329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:15 +0000
Subject: [PATCH 32/52] fix: where takes an expression, not a search condition

---
 src/commands/cmd_where/spl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..78c4c55 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::parser::expr;
 use crate::spl::python::*;
 use nom::combinator::map;
 use nom::IResult;
@@ -35,7 +35,7 @@ impl SplCommand<WhereCommand> for WhereParser {
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(expr, |v| WhereCommand { expr: v })(input)
     }
 }
 
-- 
2.43.0


From 613bc37a1d45665a467dc7d493e3f002b67034a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 33/52] fix: != and IN on a CIDR range test membership, not the
 text

---
 src/pyspark/transpiler/expr.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index d55c5cd..13595f3 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -39,6 +39,17 @@ impl ToSparkExpr for ast::Expr {
                         ast::IPv4CIDR(cidr),
                     ))),
                 ) => Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into()),
+                // src_ip != 10.0.0.0/16 -> ~F.expr("cidr_match('10.0.0.0/16', src_ip)")
+                (
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(col)))),
+                    "!=",
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
+                        ast::IPv4CIDR(cidr),
+                    ))),
+                ) => {
+                    let match_cidr = column_like!(expr("cidr_match('{}', {})", cidr, col));
+                    Ok(column_like!(~[match_cidr]).into())
+                }
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
                     lhs,
@@ -155,7 +166,7 @@ impl ToSparkExpr for ast::Expr {
                                 bail!("Unimplemented value in field-in rhs: {:?}", const_)
                             }
                             ast::Constant::IPv4CIDR(ast::IPv4CIDR(val)) => {
-                                Ok(column_like!([c.clone()] == [PyLiteral::from(val.clone())]))
+                                Ok(column_like!(expr("cidr_match('{}', {})", val, field)))
                             }
                         },
                         // Handle exact case
-- 
2.43.0


From 4f3b49ca6e001d445cf3b3b93b20c748ec57237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 34/52] fix: macro arguments are inserted literally, not as
 regular expressions

---
 python/spl_transpiler/macros.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..d80b02c 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -1,6 +1,5 @@
 import json
 import logging
-import re
 from functools import cache
 from itertools import islice
 from pathlib import Path
@@ -113,8 +112,8 @@ def substitute_macros(code, macros: MacroLoader):
                 )
 
             for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
+                macro_final_value = macro_final_value.replace(
+                    f"${arg_name}$", arg_substitute_value
                 )
 
         printable_args = ",".join(
-- 
2.43.0


From 35b9cd0d9dab1c3d15af4fce7c3978328c84c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:34 +0000
Subject: [PATCH 35/52] fix: a macro with parameters called without arguments
 is an error

---
 python/spl_transpiler/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index d80b02c..7938cdc 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -93,7 +93,7 @@ def substitute_macros(code, macros: MacroLoader):
 
         macro_final_value = macro_spec.definition
 
-        if args:
+        if args or macro_spec.arguments:
             if all(name is None for name, _ in args):
                 if len(macro_spec.arguments) != len(args):
                     raise ValueError(
-- 
2.43.0


From 6058e368ba82a98ed369311136eb50227f5c103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:56 +0000
Subject: [PATCH 36/52] fix: named macro arguments must name the macro's
 parameters

---
 python/spl_transpiler/macros.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 7938cdc..65d680a 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -105,6 +105,10 @@ def substitute_macros(code, macros: MacroLoader):
                     raise ValueError(
                         f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
                     )
+                if sorted(macro_spec.arguments) != sorted(name for name, _ in args):
+                    raise ValueError(
+                        f"Mismatched names of arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {args}"
+                    )
                 args = dict(args)
             else:
                 raise ValueError(
-- 
2.43.0


From bbd16903b46c7b9dcb345264836e97b38346c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:17 +0000
Subject: [PATCH 37/52] fix: runtime bit_and returned nothing

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..56bc459 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -17,7 +17,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
-- 
2.43.0


From e51803cdafdb32a0eb4120f2a6105a9f9a378be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:39 +0000
Subject: [PATCH 38/52] fix: runtime case dropped its conditions

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 56bc459..0dc40e4 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -102,7 +102,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
-- 
2.43.0


From c9975bf414d4f724faa94e3f7a35ab84f114f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:01 +0000
Subject: [PATCH 39/52] fix: runtime cidrmatch passed its arguments in the
 wrong order and the network as a column

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 0dc40e4..e731970 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -114,8 +114,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
-- 
2.43.0


From f40768dea4cd9d1c5c0017d3918cbc2eb832f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:23 +0000
Subject: [PATCH 40/52] fix: runtime printf, tonumber, tostring passed plain
 Python values to user defined functions

---
 python/spl_transpiler/runtime/functions/eval.py | 8 ++++----
 python/spl_transpiler/runtime/udfs/__init__.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index e731970..ca318e8 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -286,7 +286,7 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), *[arg.to_pyspark_expr() for arg in args]
     )
 
 
@@ -299,7 +299,7 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -310,8 +310,8 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..8a1684c 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -36,7 +36,7 @@ def ipmask(mask, ip):
 
 
 @udf(returnType=StringType())
-def printf(format_str, args):
+def printf(format_str, *args):
     return format_str % args
 
 
-- 
2.43.0


From c2bdd39e5d210b9028ab4ead43f5a01ef1d9db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:44 +0000
Subject: [PATCH 41/52] fix: runtime offset_time used a Rust method name

---
 python/spl_transpiler/runtime/functions/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..7559225 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -10,7 +10,7 @@ from pyspark.sql import functions as F
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
     return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
+        f"INTERVAL {offset.value} {offset.scale.value.upper()}"
     )
 
 
-- 
2.43.0


From e4e681ecc179e99311a4394f844127b8417b94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:03 +0000
Subject: [PATCH 42/52] fix: runtime relative_time could not offset a snapped
 time

---
 python/spl_transpiler/runtime/functions/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 7559225..75f365a 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -3,7 +3,7 @@
 #     let time_col: Expr = time_col.into();
 #     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 # }
-from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale, Expr
+from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale
 from pyspark.sql import functions as F
 
 
@@ -33,7 +33,7 @@ def offset_time(time_col, offset: TimeSpan):
 
 
 @enforce_types
-def round_time(time_col, scale: TimeScale) -> Expr:
+def round_time(time_col, scale: TimeScale):
     try:
         round_to = {
             scale.MONTHS: "month",
-- 
2.43.0


From f538b1696ff6ef06eebfe698229a571130c726ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:24 +0000
Subject: [PATCH 43/52] fix: runtime strptime takes an expression

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index ca318e8..347f1c9 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -427,10 +427,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
-- 
2.43.0


From d460fc736a93e4f2b539a699b9282b5299656c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:45 +0000
Subject: [PATCH 44/52] fix: runtime log took the number for the base

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 347f1c9..d8992f8 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -708,7 +708,7 @@ def ln(num: Expr) -> Expr:
 
 @enforce_types
 def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+    return F.log(float(base), num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
-- 
2.43.0


From 2b1eea1ce8aab9ce50013dc294d369db101609fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 45/52] fix: runtime sum and avg of columns

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index d8992f8..34f1747 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -763,7 +763,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return sum(n.to_pyspark_expr() for n in nums)
 
 
 #
@@ -966,7 +966,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return sum(a.to_pyspark_expr() for a in args) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
-- 
2.43.0


From 3bb0151a15ef9f1ba59ecf349164c0fddbadd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:28 +0000
Subject: [PATCH 46/52] fix: runtime mvappend takes its values as arguments

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 34f1747..7ea5472 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -786,7 +786,7 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
-- 
2.43.0


From 72d38310b59c491e6abb307debf2b40f738b14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:49 +0000
Subject: [PATCH 47/52] fix: runtime mvzip passed unconverted expressions

---
 python/spl_transpiler/runtime/functions/eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 7ea5472..4e24b71 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -920,7 +920,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
-- 
2.43.0


From 1255851f65a2d09647638ad395469e88027598f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 48/52] fix: runtime max and min of more than two columns

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 4e24b71..8ff37cd 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -989,7 +989,7 @@ def avg(*args: Expr) -> Expr:
 @enforce_types
 def max_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.greatest(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
@@ -1013,7 +1013,7 @@ def max_(*args: Expr) -> Expr:
 @enforce_types
 def min_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.least(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
-- 
2.43.0


From b4e42dcbcb648310246b6b73ff53e850d421caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:31 +0000
Subject: [PATCH 49/52] fix: runtime stats functions under the names generated
 code uses

---
 python/spl_transpiler/runtime/functions/stats.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..7555372 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -51,6 +51,9 @@ def count() -> CountStatsFn:
     return CountStatsFn()
 
 
+c = count
+
+
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
 #         "distinct_count" => {
 #             function_transform!(distinct_count [args] (x) { column_like!(count_distinct([x])) })
@@ -315,6 +318,9 @@ def sum_(value: Expr) -> SumStatsFn:
     return SumStatsFn(value=value)
 
 
+sum = sum_
+
+
 #         // sumsq(<value>)                       	 Returns the sum of the squares of the values in the field specified.
 #         "sumsq" => function_transform!(sumsq [args] (x) { column_like!(sum([[x.clone()] * [x]])) }),
 
@@ -447,6 +453,9 @@ def list_(value: Expr) -> ListStatsFn:
     return ListStatsFn(value=value)
 
 
+list = list_
+
+
 #         // values(<value>)                      	 Returns the list of all distinct values in a field as a multivalue entry. The order of the values is lexicographical.
 #         "values" => function_transform!(values [args] (x) { column_like!(collect_set([x])) }),
 
-- 
2.43.0


From bc2c0f91d876f6cd64855ab843b6f4e9ae623b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 50/52] fix: runtime tstats without df and from_ is a
 ValueError

---
 python/spl_transpiler/runtime/commands/tstats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..6821649 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -32,6 +32,8 @@ def tstats(
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
     match (df, from_):
+        case (None, None):
+            raise ValueError("Either `df` or `from_` must be provided")
         case (None, from_):
             df = data_model(
                 data_model_name=from_.datamodel,
@@ -40,8 +42,6 @@ def tstats(
             )
         case (df, None):
             pass
-        case (None, None):
-            raise ValueError("Either `df` or `from_` must be provided")
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
-- 
2.43.0


From 1b5da8d54d464081122c902bd6e48729b7b98f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:49 +0000
Subject: [PATCH 51/52] fix: runtime DataModelSpecifier as a string

---
 python/spl_transpiler/runtime/commands/tstats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index 6821649..bf417f8 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -15,7 +15,7 @@ class DataModelSpecifier(BaseModel):
     def __str__(self) -> str:
         return ".".join(
             s
-            for name in [self.datamodel.split("."), self.nodename or ""]
+            for name in [self.datamodel, self.nodename or ""]
             for s in name.split(".")
             if s
         )
-- 
2.43.0


From 775db186180a69cc69d0a50cf63d288dd3658f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:22 +0000
Subject: [PATCH 52/52] fix: notebook magic runs the code in one namespace, so
 its lambdas find F

---
 python/spl_transpiler/runtime/magic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/spl_transpiler/runtime/magic.py b/python/spl_transpiler/runtime/magic.py
index 1ef97a4..fb51164 100644
--- a/python/spl_transpiler/runtime/magic.py
+++ b/python/spl_transpiler/runtime/magic.py
@@ -65,15 +65,16 @@ else:
         if not args.dry_run:
             try:
                 spark = SparkSession.builder.getOrCreate()
+                # One namespace for everything, so lambdas in the code see these names too
+                namespace = {
+                    **local_ns,
+                    "commands": commands,
+                    "functions": functions,
+                    "spark": spark,
+                    "F": F,
+                }
                 local_ns[args.var_name] = exec_with_return(
-                    pyspark_code,
-                    local_ns,
-                    {
-                        "commands": commands,
-                        "functions": functions,
-                        "spark": spark,
-                        "F": F,
-                    },
+                    pyspark_code, namespace, namespace
                 )
             except Exception as e:
                 raise RuntimeError("Error executing PySpark code") from e
-- 
2.43.0

