From ed42a96561dc7ee944b90334f6e3f7e88588a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 01/43] fix: keep every dimension of a multi-dimensional array
 type

---
 src/data_model.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..ccf4676 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2686,6 +2686,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2693,7 +2694,14 @@ impl Dimensions {
     pub fn new(node: Node) -> Self {
         assert_check(node, "dimensions");
 
+        let mut cursor = node.walk();
+        let count = node
+            .children(&mut cursor)
+            .filter(|n| n.kind() == "[")
+            .count();
+
         Self {
+            count,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2702,7 +2710,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From 84ba9bc840ca1f07b33adea03e18a5ca83ecbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 02/43] fix: keep array dimensions after declared names and
 modifiers of for-each variables

---
 src/data_model.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ccf4676..2c89268 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -137,8 +137,8 @@ pub struct MethodDeclaration {
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -151,6 +151,7 @@ impl MethodDeclaration {
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -168,6 +169,9 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
@@ -1199,7 +1203,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1223,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1232,6 +1237,9 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref d) = self.dimensions {
+                docs.push(d.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
@@ -1555,10 +1563,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1568,12 +1576,11 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
-
         Self {
-            //modifiers,
+            modifiers: node.try_c_by_k("modifiers").map(Modifiers::new),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1585,9 +1592,15 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From 742ad61fa6866ea7434d9f35611a316c0db28cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 03/43] fix: keep every update expression of a for statement

---
 src/data_model.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2c89268..f94a5bd 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1470,7 +1470,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1486,7 +1486,11 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let updates = node
+            .children_by_field_name("update", &mut node.walk())
+            .filter(|n| n.is_named() && !n.is_extra())
+            .map(|n| Expression::new(n))
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1504,7 +1508,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1537,9 +1541,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let docs = b.to_docs(&self.updates);
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From 31820361b25450ec83c31c3b71074c1de6763177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 04/43] fix: print an empty statement body of if/else exactly
 once

---
 src/data_model.rs | 14 +++++++++++++-
 src/enum_def.rs   |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index f94a5bd..52b8c11 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1368,13 +1368,25 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
-            } else {
+            } else if !self.consequence.is_semicolumn() {
+                // an empty statement is already printed as punctuation of the condition
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
             }
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                if alt.statement.is_semicolumn() {
+                    // the empty statement is printed as punctuation of the `else` node
+                    if self.consequence.is_block() {
+                        result.push(b.txt(" "));
+                    } else {
+                        result.push(b.nl());
+                    }
+                    result.push(alt.else_node.build(b));
+                    return;
+                }
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..b592bf0 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -636,6 +636,9 @@ impl Statement {
     pub fn is_block(&self) -> bool {
         matches!(self, Statement::Block(_))
     }
+    pub fn is_semicolumn(&self) -> bool {
+        matches!(self, Statement::SemiColumn)
+    }
 }
 
 impl<'a> DocBuild<'a> for Statement {
-- 
2.43.0


From a297d7c10a5dc7f14862685c881bdc11952bd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 05/43] fix: do not underflow when looking for a blank line
 after a member on the first line

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index b592bf0..a615f03 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -822,7 +822,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From 27e6f73404426cc35de939b6c4a9af26c5777fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 06/43] fix: keep nested sign operators apart so that they do
 not fuse into ++ or --

---
 src/data_model.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 52b8c11..db1dc68 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2161,6 +2161,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 pub struct UnaryExpression {
     pub operator: String,
     pub operand: Box<Expression>,
+    pub needs_space: bool,
     pub node_context: NodeContext,
 }
 
@@ -2169,9 +2170,16 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand_node = node.c_by_n("operand");
+
+        // `- -x` must not become the decrement `--x`
+        let needs_space = matches!(operator.as_str(), "+" | "-")
+            && operand_node.value().starts_with(operator.as_str());
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            operand: Box::new(Expression::new(operand_node)),
+            needs_space,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2181,6 +2189,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.needs_space {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 390c0bc1368030c65830557394f1d04849c29ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 07/43] fix: keep every object of a SOQL FROM clause

---
 src/data_model.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index db1dc68..43a9cc8 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4332,7 +4332,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4341,7 +4341,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4351,7 +4355,10 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 0f6955d7ec25a74c1a006d4df39ee6503d8a549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 08/43] fix: keep USING and UPDATE clauses of SOQL queries and
 the order of FOR and ALL ROWS

---
 src/data_model.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 43a9cc8..159ec32 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4229,7 +4229,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4237,7 +4237,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4246,6 +4246,7 @@ impl SoqlQueryBody {
     pub fn new(node: Node) -> Self {
         assert_check(node, "soql_query_body");
 
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
         let where_clause = node.try_c_by_n("where_clause").map(|n| WhereClause::new(n));
         let with_clause = node
             .try_c_by_n("with_clause")
@@ -4260,6 +4261,9 @@ impl SoqlQueryBody {
         let offset_clause = node
             .try_c_by_n("offset_clause")
             .map(|n| OffsetClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
@@ -4272,6 +4276,7 @@ impl SoqlQueryBody {
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4279,6 +4284,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4292,6 +4298,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
@@ -4310,9 +4319,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4322,6 +4328,12 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 426ead47caa8d5f9519147e0ef1e69704328545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 09/43] fix: keep every type of a SOQL FOR clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 159ec32..577e77c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6042,7 +6042,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6051,7 +6051,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(ValueNode::new)
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6060,7 +6064,9 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 1b8088461edf55a014227332beecb0de748e3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 10/43] fix: keep the OFFSET clause of SOSL queries

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 577e77c..542544f 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3957,7 +3957,7 @@ pub struct SoslQueryBody {
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -3980,6 +3980,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -3991,6 +3994,7 @@ impl SoslQueryBody {
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4021,6 +4025,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 60b19d64d2823ea22e6f53a4fec1e7e90f40e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 11/43] fix: format USING LOOKUP clauses instead of rejecting
 them

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 542544f..8f8b94d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4649,7 +4649,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4667,8 +4667,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4750,7 +4750,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 2391009710353af86a20c9f779e853149944eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 12/43] fix: accept datetime and currency literals in SOQL

---
 src/enum_def.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index a615f03..935ea32 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1391,8 +1391,8 @@ pub enum SoqlLiteral {
     DWithParam(DateLiteralWithParam),
     NullLiteral(ValueNode),
     Date(ValueNode),
-    //CurrentLiteral(ValueNode),
-    //DateTime(ValueNode),
+    CurrencyLiteral(ValueNode),
+    DateTime(ValueNode),
 }
 
 impl SoqlLiteral {
@@ -1403,6 +1403,8 @@ impl SoqlLiteral {
             "string_literal" => Self::StringLiteral(ValueNode::new(node)),
             "boolean" => Self::Boolean(ValueNode::new(node)),
             "date" => Self::Date(ValueNode::new(node)),
+            "date_time" => Self::DateTime(ValueNode::new(node)),
+            "currency_literal" => Self::CurrencyLiteral(ValueNode::new(node)),
             "date_literal" => Self::DateLiteral(ValueNode::new(node)),
             "date_literal_with_param" => Self::DWithParam(DateLiteralWithParam::new(node)),
             "null_literal" => Self::NullLiteral(ValueNode::new(node)),
@@ -1426,6 +1428,12 @@ impl<'a> DocBuild<'a> for SoqlLiteral {
             Self::Date(n) => {
                 result.push(n.build(b));
             }
+            Self::DateTime(n) => {
+                result.push(n.build(b));
+            }
+            Self::CurrencyLiteral(n) => {
+                result.push(n.build(b));
+            }
             Self::Boolean(n) => {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 8d8af131967ecb6d0f98ee23c2560eb84ccfe68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 13/43] fix: accept bound expressions as GEOLOCATION parameters

---
 src/enum_def.rs | 53 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 935ea32..a244cc1 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1286,11 +1286,40 @@ pub enum GeoLocationTypeVariant {
     Bound(BoundApexExpression),
     Func {
         function_name: ValueNode,
-        decimal1: ValueNode,
-        decimal2: ValueNode,
+        latitude: GeoLocationParam,
+        longitude: GeoLocationParam,
     },
 }
 
+#[derive(Debug)]
+pub enum GeoLocationParam {
+    Decimal(ValueNode),
+    Bound(BoundApexExpression),
+}
+
+impl GeoLocationParam {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "decimal" => Self::Decimal(ValueNode::new(node)),
+            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(node)),
+            _ => panic_unknown_node(node, "GeoLocationParam"),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for GeoLocationParam {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Decimal(n) => {
+                result.push(n.build(b));
+            }
+            Self::Bound(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 impl GeoLocationTypeVariant {
     pub fn new(node: Node) -> Self {
         let child = node.first_c();
@@ -1298,18 +1327,18 @@ impl GeoLocationTypeVariant {
             "field_identifier" => Self::Field(FieldIdentifier::new(child)),
             "bound_apex_expression" => Self::Bound(BoundApexExpression::new(child)),
             "identifier" => {
-                let decimals = node.cs_by_k("decimal");
-                if decimals.len() != 2 {
+                let children = node.children_vec();
+                if children.len() != 3 {
                     panic!(
-                        "expect 2 decimal nodes, found {} in GeoLocationType",
-                        decimals.len()
+                        "expect a function name and 2 parameters, found {} nodes in GeoLocationType",
+                        children.len()
                     );
                 }
 
                 Self::Func {
                     function_name: ValueNode::new(child),
-                    decimal1: ValueNode::new(decimals[0]),
-                    decimal2: ValueNode::new(decimals[1]),
+                    latitude: GeoLocationParam::new(children[1]),
+                    longitude: GeoLocationParam::new(children[2]),
                 }
             }
 
@@ -1329,14 +1358,14 @@ impl<'a> DocBuild<'a> for GeoLocationTypeVariant {
             }
             Self::Func {
                 function_name,
-                decimal1,
-                decimal2,
+                latitude,
+                longitude,
             } => {
                 result.push(function_name.build(b));
                 result.push(b.txt("("));
-                result.push(decimal1.build(b));
+                result.push(latitude.build(b));
                 result.push(b.txt(" "));
-                result.push(decimal2.build(b));
+                result.push(longitude.build(b));
                 result.push(b.txt(")"));
             }
         }
-- 
2.43.0


From 182b88c593ac4a3d25626d7305d0ccf1de934e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 14/43] fix: keep type bounds and the type parameters of
 methods

---
 src/data_model.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8f8b94d..a2f5d25 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -134,6 +134,7 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 #[derive(Debug)]
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
+    pub type_parameters: Option<TypeParameters>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
@@ -148,6 +149,9 @@ impl MethodDeclaration {
 
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
+            type_parameters: node
+                .try_c_by_k("type_parameters")
+                .map(|n| TypeParameters::new(n)),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
@@ -164,6 +168,10 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
+            if let Some(ref n) = self.type_parameters {
+                result.push(n.build(b));
+                result.push(b.txt(" "));
+            }
 
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
@@ -1980,6 +1988,7 @@ impl<'a> DocBuild<'a> for TypeParameters {
 pub struct TypeParameter {
     annotations: Vec<Annotation>,
     pub type_identifier: String,
+    pub bounds: Vec<Type>,
     pub node_context: NodeContext,
 }
 
@@ -1994,6 +2003,10 @@ impl TypeParameter {
         Self {
             annotations,
             type_identifier: node.cvalue_by_k("type_identifier"),
+            bounds: node
+                .try_c_by_k("type_bound")
+                .map(|n| n.children_vec().into_iter().map(Type::new).collect())
+                .unwrap_or_default(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2009,6 +2022,12 @@ impl<'a> DocBuild<'a> for TypeParameter {
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
+            if !self.bounds.is_empty() {
+                let docs = b.to_docs(&self.bounds);
+                let sep = Insertable::new(None, Some(" & "), None);
+                result.push(b.txt(" extends "));
+                result.push(b.intersperse(&docs, sep));
+            }
         });
     }
 }
-- 
2.43.0


From 2014ab49f7b05d765e7260ea3c0e5644333cf86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 15/43] fix: report results in the order of the source files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..5110b50 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // threads finish in any order; results are reported in the order of the source files
+        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From 79830d8d2ca7567196dfcb7ee4b8e0f759192800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 16/43] fix: keep the parentheses of a nested NOT in SOQL
 conditions

---
 src/data_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a2f5d25..08f5c89 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6034,7 +6034,8 @@ impl NotExpression {
 impl<'a> DocBuild<'a> for NotExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            let expr_doc = self.condition_exp.build_with_parent(b, Some("NOT"));
+            // `NOT NOT x` is not valid: a nested boolean expression always keeps its parentheses
+            let expr_doc = self.condition_exp.build_with_parent(b, None);
             let doc = b.concat(vec![b.txt_("NOT"), expr_doc]);
             result.push(doc);
         });
-- 
2.43.0


From 5a4d6adb9a84c326eddbb9ed1708fc71c748e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 17/43] fix: keep the brackets of empty lists that contain only
 comments

---
 src/data_model.rs | 10 ++++++++
 src/utility.rs    | 64 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 08f5c89..41646e4 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -216,6 +216,11 @@ impl FormalParameters {
 impl<'a> DocBuild<'a> for FormalParameters {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            let bucket = get_comment_bucket(&self.node_context.id);
+            if !bucket.dangling_comments.is_empty() {
+                return handle_dangling_comments_in_brackets(b, bucket, "(", ")", result);
+            }
+
             let parameters_doc = b.to_docs(&self.formal_parameters);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -1004,6 +1009,11 @@ impl ArgumentList {
 impl<'a> DocBuild<'a> for ArgumentList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            let bucket = get_comment_bucket(&self.node_context.id);
+            if !bucket.dangling_comments.is_empty() {
+                return handle_dangling_comments_in_brackets(b, bucket, "(", ")", result);
+            }
+
             let docs = b.to_docs(&self.expressions);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..819438f 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -1,6 +1,6 @@
 use crate::{
     accessor::Accessor,
-    context::{Comment, CommentBucket, CommentMap, NodeContext},
+    context::{Comment, CommentBucket, CommentMap, CommentType, NodeContext},
     data_model::*,
     doc::{Doc, DocRef},
     doc_builder::DocBuilder,
@@ -277,6 +277,11 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
     cursor.goto_parent();
 }
 
+// `handle_members` may already have placed the dangling comments between its brackets
+fn has_unprinted_dangling_comments(bucket: &CommentBucket) -> bool {
+    bucket.dangling_comments.iter().any(|c| !c.is_printed())
+}
+
 pub fn build_with_comments<'a, F>(
     b: &'a DocBuilder<'a>,
     node_context: &NodeContext,
@@ -288,11 +293,11 @@ pub fn build_with_comments<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+
+    if has_unprinted_dangling_comments(bucket) {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
-        return;
     }
 
     handle_post_comments(b, bucket, result);
@@ -309,9 +314,10 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+
+    if has_unprinted_dangling_comments(bucket) {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
     }
 }
@@ -327,9 +333,7 @@ pub fn build_with_comments_and_punc<'a, F>(
     build_with_comments_core(b, node_context, result, handle_members);
 
     let bucket = get_comment_bucket(&node_context.id);
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 
     if let Some(ref n) = node_context.punc {
         result.push(n.build(b));
@@ -353,9 +357,7 @@ pub fn build_with_comments_and_punc_attached<'a, F>(
         result.push(n.build(b));
     }
 
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 }
 
 pub fn handle_dangling_comments_in_bracket_surround<'a>(
@@ -370,6 +372,40 @@ pub fn handle_dangling_comments_in_bracket_surround<'a>(
     result.push(b.txt("}"));
 }
 
+// comments of an empty list stay between its brackets
+pub fn handle_dangling_comments_in_brackets<'a>(
+    b: &'a DocBuilder<'a>,
+    bucket: &CommentBucket,
+    open: &'a str,
+    close: &'a str,
+    result: &mut Vec<DocRef<'a>>,
+) {
+    let is_inline = bucket.dangling_comments.iter().all(|c| {
+        matches!(c.comment_type, CommentType::Block)
+            && !c.value.starts_with("/**")
+            && !c.value.contains('\n')
+    });
+
+    let mut docs = Vec::new();
+    for (i, comment) in bucket.dangling_comments.iter().enumerate() {
+        if i != 0 {
+            docs.push(if is_inline { b.txt(" ") } else { b.nl() });
+        }
+        docs.push(comment.build(b));
+        comment.mark_as_printed();
+    }
+    let docs = b.concat(docs);
+
+    result.push(b.txt(open));
+    if is_inline {
+        result.push(docs);
+    } else {
+        result.push(b.indent(b.concat(vec![b.nl(), docs])));
+        result.push(b.nl());
+    }
+    result.push(b.txt(close));
+}
+
 pub fn handle_dangling_comments<'a>(
     b: &'a DocBuilder<'a>,
     bucket: &CommentBucket,
-- 
2.43.0


From 2e5f28b7082e55cdb60060a34e28ced8f4cdad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 18/43] fix: do not duplicate the star of the last line of a
 JavaDoc comment

---
 src/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..dfec866 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -171,7 +171,13 @@ impl<'a> DocBuild<'a> for Comment {
                             result.push(b.txt(trimmed));
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
+                                // A leading star belongs to the decoration, not to the content
                                 let content = before_end.trim();
+                                let content = if content.chars().all(|c| c == '*') {
+                                    ""
+                                } else {
+                                    content.strip_prefix('*').unwrap_or(content).trim_start()
+                                };
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
-- 
2.43.0


From ee95990040b2a30d10850db0f84c97954ed03232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 19/43] fix: do not leave a separator at the end of a line

---
 src/doc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/doc.rs b/src/doc.rs
index 3474cae..bd749cb 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -110,6 +110,7 @@ impl<'a> PrettyPrinter<'a> {
                     // Clear any pending newline and insert a newline without indent
                     newline_buffer.clear();
 
+                    Self::trim_trailing_spaces(&mut result);
                     result.push('\n');
                     self.col = 0;
                 }
@@ -185,6 +186,7 @@ impl<'a> PrettyPrinter<'a> {
     }
 
     fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
+        Self::trim_trailing_spaces(result);
         result.push('\n');
         for _ in 0..indent {
             result.push(' ');
@@ -192,6 +194,11 @@ impl<'a> PrettyPrinter<'a> {
         self.col = indent;
     }
 
+    // a separator before a line break is not needed, e.g. the one after an inline comment
+    fn trim_trailing_spaces(result: &mut String) {
+        result.truncate(result.trim_end_matches(' ').len());
+    }
+
     //fn insert_newline_with_indent(&mut self, result: &mut String, chunk: &Chunk) {
     //    result.push('\n');
     //    let total_indent = chunk.indent;
-- 
2.43.0


From 441192fcca4c47163c6684ccb2a8d62ce47bdca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 20/43] fix: do not start a line with the separator of a
 comment

---
 src/doc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc.rs b/src/doc.rs
index bd749cb..a547ac3 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -138,7 +138,7 @@ impl<'a> PrettyPrinter<'a> {
                         newline_buffer.clear();
                     }
 
-                    if text == " " && result.ends_with(' ') {
+                    if text == " " && result.ends_with([' ', '\n']) {
                         // TODO: better way to handle this challenge?
                         // do nothing to avoid "double spacing" in comment node handling
                     } else {
-- 
2.43.0


From d31f6b9414c3ee0711c97906f8e70ea4c9bee2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 21/43] fix: place a JavaDoc comment behind code the same on
 every pass

---
 src/context.rs | 5 +++++
 src/utility.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index dfec866..b82fd01 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -126,6 +126,11 @@ impl Comment {
         self.metadata.has_prev_node
     }
 
+    // a JavaDoc comment is expanded even if the source has it in one line
+    pub fn is_printed_over_several_lines(&self) -> bool {
+        self.value.starts_with("/**") || self.value.contains('\n')
+    }
+
     pub fn mark_as_printed(&self) {
         self.is_printed.set(true);
     }
diff --git a/src/utility.rs b/src/utility.rs
index 819438f..c348bb7 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -215,7 +215,7 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-                        if child.end_position().row == last_row {
+                        if child.end_position().row == last_row && !c.is_printed_over_several_lines() {
                             comment_map
                                 .entry(last_id)
                                 .or_insert_with(CommentBucket::new)
-- 
2.43.0


From 3100718a3e2ce75f8897a3ef61b194c97b63750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 22/43] fix: do not print the comments of a for header twice

---
 src/data_model.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 41646e4..953917b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1559,16 +1559,15 @@ impl<'a> DocBuild<'a> for ForStatement {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for "));
 
-            let mut semicolons_iter = self.semicolons.iter();
-
+            // an init expression or a condition prints the semicolon behind it by itself
             let init = match &self.init {
                 Some(i) => i.build(b),
-                None => semicolons_iter.next().unwrap().build(b),
+                None => self.semicolons.first().unwrap().build(b),
             };
 
             let condition = match &self.condition {
                 Some(c) => b.concat(vec![b.txt(" "), c.build(b)]),
-                None => semicolons_iter.next().unwrap().build(b),
+                None => self.semicolons.last().unwrap().build(b),
             };
 
             let update = if self.updates.is_empty() {
-- 
2.43.0


From 829307807f6a2a2765c7edf97ea39e96ad24e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 23/43] fix: do not print the comments of a WITH clause twice

---
 src/data_model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 953917b..89c5ac0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5283,7 +5283,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
     //DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5292,7 +5292,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5307,8 +5307,9 @@ impl SoqlWithTypeVariant {
 impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
-            Self::SimpleType(n) => {
-                result.push(n.build(b));
+            // the comments around it are those of SoqlWithType
+            Self::SimpleType(value) => {
+                result.push(b.txt(value));
             }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
-- 
2.43.0


From 5d4db5d23a7e908cd7293ddc200f7bf8b7dd3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 24/43] fix: keep the order of the comments behind a JavaDoc
 comment

---
 src/utility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index c348bb7..55f3fd7 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -215,7 +215,10 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-                        if child.end_position().row == last_row && !c.is_printed_over_several_lines() {
+                        if child.end_position().row == last_row
+                            && !c.is_printed_over_several_lines()
+                            && pending_pre_comments.is_empty()
+                        {
                             comment_map
                                 .entry(last_id)
                                 .or_insert_with(CommentBucket::new)
-- 
2.43.0


From f23dd85e3ca578012b0f6c173ee903837e7c3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 25/43] fix: accept a file that contains only comments

---
 src/data_model.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 89c5ac0..54e04db 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,8 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            return result.push(b.nl());
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From 2d0f1473738d1560ecc3b86d5cd2cf77b7d79d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 26/43] fix: keep a comment behind a block that contains only
 comments

---
 src/data_model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 54e04db..276c72a 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -703,7 +703,6 @@ impl<'a> DocBuild<'a> for Block {
             result.push(docs);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-            return;
         }
         handle_post_comments(b, bucket, result);
     }
-- 
2.43.0


From 2dd2beb240c4419b526b78184d31c77fa431321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 27/43] fix: do not keep the whitespace inside operators and
 NULLS FIRST

---
 src/data_model.rs | 12 ++++++++++--
 src/utility.rs    |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 276c72a..a56e6fe 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -587,7 +587,7 @@ impl AssignmentExpression {
 
         Self {
             left: AssignmentLeft::new(node.c_by_n("left")),
-            op: ValueNode::new(node.c_by_n("operator")),
+            op: ValueNode::with_words_joined(node.c_by_n("operator"), ""),
             right: Expression::new(right_child),
             is_right_child_a_query_node: is_query_expression(&right_child),
             node_context: NodeContext::with_punctuation(&node),
@@ -4962,7 +4962,7 @@ impl OrderExpression {
             .map(|n| ValueNode::new(n));
         let null_direction = node
             .try_c_by_k("order_null_direction")
-            .map(|n| ValueNode::new(n));
+            .map(|n| ValueNode::with_words_joined(n, " "));
 
         Self {
             value_expression: ValueExpression::new(node.first_c()),
@@ -5690,6 +5690,14 @@ impl ValueNode {
             node_context: NodeContext::with_punctuation(&node),
         }
     }
+
+    // a token may be written with whitespace in it: "NULLS  FIRST"
+    pub fn with_words_joined(node: Node, sep: &str) -> Self {
+        Self {
+            value: join_words(&node.value(), sep),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
 }
 
 impl<'a> DocBuild<'a> for ValueNode {
diff --git a/src/utility.rs b/src/utility.rs
index 55f3fd7..98a531e 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -554,6 +554,10 @@ pub fn is_binary_exp(node: &Node) -> bool {
     node.kind() == "binary_expression"
 }
 
+pub fn join_words(text: &str, sep: &str) -> String {
+    text.split_whitespace().collect::<Vec<_>>().join(sep)
+}
+
 pub fn is_query_expression(node: &Node) -> bool {
     node.kind() == "query_expression"
 }
@@ -577,7 +581,7 @@ pub fn get_comparsion(node: &Node) -> Comparison {
     } else if let Some(operator_node) = node.try_c_by_k("set_comparison_operator") {
         let next_node = operator_node.next_named();
         Comparison::Set(SetComparison {
-            operator: operator_node.value(),
+            operator: join_words(&operator_node.value(), " "),
             set_value: SetValue::new(next_node),
         })
     } else {
-- 
2.43.0


From 92baeadc7fd9cbf523aa489381b0be3475abb1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 28/43] fix: do not leave a blank line behind an empty update
 of a for statement

---
 src/data_model.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a56e6fe..abf1bc2 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1565,15 +1565,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => self.semicolons.last().unwrap().build(b),
             };
 
-            let update = if self.updates.is_empty() {
-                b.nil()
-            } else {
-                let docs = b.to_docs(&self.updates);
+            let mut docs = vec![init, condition];
+            if !self.updates.is_empty() {
+                let updates = b.to_docs(&self.updates);
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
-            };
-
-            let docs = vec![init, condition, update];
+                docs.push(b.concat(vec![b.txt(" "), b.group(b.intersperse(&updates, sep))]));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.maybeline()));
             let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-- 
2.43.0


From 61464b99048fcb96e41162c616621455fd8859da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 29/43] fix: indent the statement after a constructor call and
 a blank line

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index abf1bc2..f6b0e37 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1860,7 +1860,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
-- 
2.43.0


From f8709a5968ed9e33f178ca9f92bf671bc5e4d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 30/43] fix: print else in lower case like every other keyword

---
 src/data_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index f6b0e37..c4bc5d3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1335,7 +1335,7 @@ impl<'a> DocBuild<'a> for GenericIdentifier {
 
 #[derive(Debug)]
 pub struct ElseClause {
-    pub else_node: ValueNode, // The 'else' keyword node
+    pub else_node: ValueNodeLowerCase, // The 'else' keyword node
     pub statement: Statement, // The actual else-block or nested if
 }
 
@@ -1358,7 +1358,7 @@ impl IfStatement {
                 .expect("a mandatory `else` node is missing");
 
             ElseClause {
-                else_node: ValueNode::new(else_node),
+                else_node: ValueNodeLowerCase::new(else_node),
                 statement: Statement::new(alt_stmt),
             }
         });
-- 
2.43.0


From 2f34cec4121453549c385354fec5bed6257064cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 31/43] fix: do not treat an empty block comment as a JavaDoc
 comment

---
 src/context.rs | 9 +++++++--
 src/utility.rs | 4 +---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index b82fd01..affca4b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -126,9 +126,14 @@ impl Comment {
         self.metadata.has_prev_node
     }
 
+    // `/**/` is an empty block comment
+    pub fn is_javadoc(&self) -> bool {
+        self.value.starts_with("/**") && self.value != "/**/"
+    }
+
     // a JavaDoc comment is expanded even if the source has it in one line
     pub fn is_printed_over_several_lines(&self) -> bool {
-        self.value.starts_with("/**") || self.value.contains('\n')
+        self.is_javadoc() || self.value.contains('\n')
     }
 
     pub fn mark_as_printed(&self) {
@@ -151,7 +156,7 @@ impl<'a> DocBuild<'a> for Comment {
                 let mut lines: Vec<&str> = self.value.split('\n').collect();
 
                 // JavaDoc formatting
-                if self.value.starts_with("/**") {
+                if self.is_javadoc() {
                     // Handle the first line that might contain both /** and content
                     if !lines.is_empty() {
                         let first_line = lines[0].trim();
diff --git a/src/utility.rs b/src/utility.rs
index 98a531e..1abcc01 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -384,9 +384,7 @@ pub fn handle_dangling_comments_in_brackets<'a>(
     result: &mut Vec<DocRef<'a>>,
 ) {
     let is_inline = bucket.dangling_comments.iter().all(|c| {
-        matches!(c.comment_type, CommentType::Block)
-            && !c.value.starts_with("/**")
-            && !c.value.contains('\n')
+        matches!(c.comment_type, CommentType::Block) && !c.is_printed_over_several_lines()
     });
 
     let mut docs = Vec::new();
-- 
2.43.0


From af72f50538563dbe6f8e6b16319eb51323a84677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 32/43] fix: do not break a line for a separator that is not
 printed

---
 src/doc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/doc.rs b/src/doc.rs
index a547ac3..8fd5814 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -213,6 +213,7 @@ impl<'a> PrettyPrinter<'a> {
         let mut stack = vec![chunk];
         let mut chunks = &self.chunks as &[Chunk];
         let mut within_group = true;
+        let mut pending_separator = 0; // a separator before a line break is not printed
 
         loop {
             let chunk = if let Some(chunk) = stack.pop() {
@@ -249,9 +250,14 @@ impl<'a> PrettyPrinter<'a> {
                         return true;
                     }
                 }
+                Doc::Text(text, _) if text == " " => pending_separator = 1,
+                Doc::Text(_, 0) => {}
                 Doc::Text(_, text_width) => {
-                    if *text_width <= remaining_width {
-                        remaining_width -= text_width;
+                    let needed_width = text_width + pending_separator;
+                    pending_separator = 0;
+
+                    if needed_width <= remaining_width {
+                        remaining_width -= needed_width;
                     } else {
                         return false;
                     }
-- 
2.43.0


From 54c648f80bba9e70b658bd7e9abe2c35b07cebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 33/43] fix: keep a chain that ends in an array access in one
 group

---
 src/data_model.rs | 22 ++++++++++++++++++----
 src/utility.rs    |  7 ++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c4bc5d3..af3f944 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2623,6 +2623,7 @@ impl<'a> DocBuild<'a> for DmlTypeVariant {
 pub struct ArrayAccess {
     pub array: PrimaryExpression,
     pub index: Expression,
+    pub context: Option<ChainingContext>,
     pub node_context: NodeContext,
 }
 
@@ -2633,6 +2634,7 @@ impl ArrayAccess {
         Self {
             array: PrimaryExpression::new(node.c_by_n("array")),
             index: Expression::new(node.c_by_n("index")),
+            context: build_chaining_context(&node),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2641,10 +2643,22 @@ impl ArrayAccess {
 impl<'a> DocBuild<'a> for ArrayAccess {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.array.build(b));
-            result.push(b.txt("["));
-            result.push(self.index.build(b));
-            result.push(b.txt("]"));
+            let docs = vec![
+                self.array.build(b),
+                b.txt("["),
+                self.index.build(b),
+                b.txt("]"),
+            ];
+
+            if self
+                .context
+                .as_ref()
+                .is_some_and(|context| context.is_top_most_in_a_chain)
+            {
+                result.push(b.group_indent_concat(docs));
+            } else {
+                result.push(b.concat(docs));
+            }
         });
     }
 }
diff --git a/src/utility.rs b/src/utility.rs
index 1abcc01..d819707 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -592,10 +592,15 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
         .parent()
         .expect("node must have parent node in build_chaining_context()");
 
-    let is_parent_a_chaining_node = is_a_chaining_node(&parent_node);
+    // the index of an array access starts a chain of its own
+    let is_parent_a_chaining_node = is_a_chaining_node(&parent_node)
+        && !parent_node
+            .try_c_by_n("index")
+            .is_some_and(|n| n.id() == node.id());
 
     let has_a_chaining_child = node
         .try_c_by_n("object")
+        .or_else(|| node.try_c_by_n("array"))
         .map(|n| is_a_chaining_node(&n))
         .unwrap_or(false);
 
-- 
2.43.0


From db730fb5b9a7d8f10175e8acf5979917f8310ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 34/43] fix: keep a star that belongs to the text behind the
 opening of a JavaDoc comment

---
 src/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index affca4b..f3dcc25 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -156,6 +156,7 @@ impl<'a> DocBuild<'a> for Comment {
                 let mut lines: Vec<&str> = self.value.split('\n').collect();
 
                 // JavaDoc formatting
+                let first_content: String;
                 if self.is_javadoc() {
                     // Handle the first line that might contain both /** and content
                     if !lines.is_empty() {
@@ -168,7 +169,14 @@ impl<'a> DocBuild<'a> for Comment {
                                 // Replace first line with just /**
                                 lines[0] = "/**";
                                 // Insert the content as a new second line
-                                lines.insert(1, content);
+                                // A star behind a blank belongs to the content, not to the decoration
+                                let is_separated = first_line[3..].starts_with(char::is_whitespace);
+                                first_content = if is_separated && !content.starts_with("**/") {
+                                    format!("* {}", content)
+                                } else {
+                                    content.to_string()
+                                };
+                                lines.insert(1, &first_content);
                             }
                         }
                     }
-- 
2.43.0


From e3ad7a87bc3e07308ce60fba4bd0e4c7858db70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 35/43] fix: print a blank between the interfaces of an enum
 and its body

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index af3f944..42abfa1 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2350,6 +2350,7 @@ impl<'a> DocBuild<'a> for EnumDeclaration {
 
             if let Some(ref n) = self.interface {
                 result.push(n.build(b));
+                result.push(b.txt(" "));
             }
             result.push(self.body.build(b));
         });
-- 
2.43.0


From 6d33f0b1de104bfefb93511c12c9386eb32fbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 36/43] fix: indent all lines of a statement without braces
 behind else, not only the first

---
 src/data_model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 42abfa1..c4146ce 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1412,9 +1412,10 @@ impl<'a> DocBuild<'a> for IfStatement {
 
                     if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
-                    } else {
-                        result.push(b.txt(" "));
+                        result.push(b.indent(alt.statement.build(b)));
+                        return;
                     }
+                    result.push(b.txt(" "));
                 }
                 result.push(alt.statement.build(b));
             }
-- 
2.43.0


From 466a08a7aeed7a93912c734e4e2b074a707b33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 37/43] fix: measure the width of a text in characters, not in
 bytes

---
 src/doc_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_builder.rs b/src/doc_builder.rs
index 78f1f5e..f19b594 100644
--- a/src/doc_builder.rs
+++ b/src/doc_builder.rs
@@ -191,7 +191,7 @@ impl<'a> DocBuilder<'a> {
 
     pub fn txt(&'a self, text: impl ToString) -> DocRef<'a> {
         let s = text.to_string();
-        let width = s.len() as u32;
+        let width = s.chars().count() as u32;
         self.arena.alloc(Doc::Text(s, width))
     }
 
-- 
2.43.0


From d72545637dd4d77c82371dc412b617abb05979bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 38/43] fix: shorten the snippet of a syntax error at a
 character boundary

---
 src/utility.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index d819707..5bef745 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -16,7 +16,12 @@ pub fn truncate_snippet(snippet: &str) -> String {
     if snippet.len() <= SNIPPET_MAX_LEN {
         snippet.to_string()
     } else {
-        format!("{}…", &snippet[..SNIPPET_MAX_LEN])
+        // never cut through a multi-byte character
+        let end = (0..=SNIPPET_MAX_LEN)
+            .rev()
+            .find(|i| snippet.is_char_boundary(*i))
+            .unwrap_or(0);
+        format!("{}…", &snippet[..end])
     }
 }
 
-- 
2.43.0


From c750419dfcb930ab6addb84578b1538830263e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:07 +0000
Subject: [PATCH 39/43] fix: keep the dot behind the object of an explicit
 constructor call

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index c4146ce..c064182 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1919,6 +1919,7 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
+                result.push(b.txt("."));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From 4248ae284007867480633e654aa954f2b965c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:05 +0000
Subject: [PATCH 40/43] fix: keep a comment behind an accessor behind its
 semicolon

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c064182..b6cc03d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3335,7 +3335,7 @@ impl AccessorDeclaration {
 
 impl<'a> DocBuild<'a> for AccessorDeclaration {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_with_comments_and_punc_attached(b, &self.node_context, result, |b, result| {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
-- 
2.43.0


From c9abd8a689ef2df658b209e2379d097675d6fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:48 +0000
Subject: [PATCH 41/43] fix: break an accessor list that has a comment on its
 own line

---
 src/data_model.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b6cc03d..83979e7 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1,6 +1,6 @@
 use crate::{
     accessor::Accessor,
-    context::{NodeContext, Punctuation},
+    context::{CommentType, NodeContext, Punctuation},
     doc::DocRef,
     doc_builder::{DocBuilder, Insertable},
     enum_def::*,
@@ -3281,13 +3281,29 @@ impl AccessorList {
             node_context: NodeContext::with_punctuation(&node),
         }
     }
+
+    // a comment on its own line, or over several lines, breaks the list
+    fn has_line_breaking_comment(&self) -> bool {
+        self.accessor_declarations.iter().any(|n| {
+            let bucket = get_comment_bucket(&n.node_context.id);
+            bucket
+                .pre_comments
+                .iter()
+                .chain(&bucket.post_comments)
+                .any(|c| {
+                    matches!(c.comment_type, CommentType::Line)
+                        || c.is_printed_over_several_lines()
+                        || !(c.has_leading_content() || c.has_trailing_content())
+                })
+        })
+    }
 }
 
 impl<'a> DocBuild<'a> for AccessorList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             // to align with prettier apex;
-            if self.child_has_body_section {
+            if self.child_has_body_section || self.has_line_breaking_comment() {
                 // NOTE: group does NOT work with b.nl() so can't use group_surround()
                 let docs = b.to_docs(&self.accessor_declarations);
                 let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
-- 
2.43.0


From 68ecbff6dd2a464c0308faaf5b27facb12025f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:03 +0000
Subject: [PATCH 42/43] fix: no blank line between a comment behind a
 constructor call and the closing brace

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 83979e7..38f559c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1870,7 +1870,9 @@ impl<'a> DocBuild<'a> for ConstructorBody {
                 result.push(b.indent(b.nl()));
             }
 
-            result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            if !self.statements.is_empty() {
+                result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            }
             result.push(b.nl());
             result.push(b.txt("}"));
         } else {
-- 
2.43.0


From 4ed8a4263ad876596a662eea7bcd5d71d559fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:52 +0000
Subject: [PATCH 43/43] fix: no blank line between a comment behind a switch
 case and the next case

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 38f559c..3612cb5 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3564,7 +3564,7 @@ impl<'a> DocBuild<'a> for SwitchBlock {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let docs = b.to_docs(&self.rules);
 
-            let sep = Insertable::new(None, Some(""), Some(b.nl()));
+            let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
             let open = Insertable::new(None, Some("{"), Some(b.nl()));
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.surround(&docs, sep, open, close);
-- 
2.43.0

