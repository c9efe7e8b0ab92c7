From baf2918f50fb01ab1fe536b416f43a02b9375d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 01/36] fix: give each instrumented file its own coverage
 function

The identifier of the injected function was kept in a process-wide OnceCell, so
every file after the first one instrumented by a process got the first file's
name: output depended on history, and files sharing a scope shared (and
overwrote) one coverage function.
---
 .../create_coverage_fn_decl.rs                | 24 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 ++++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..c73fe06 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,24 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn, and the temporal
+/// ident being used for b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// Idents are derived from the given value (filename) only: a process can instrument
+/// multiple files, each of them should have its own coverage fn.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..af358de 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                let (cov_fn_ident, cov_fn_temp_ident) =
+                    crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident,
+                    cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..5e892be 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From bf14f89de0f8c9efddae9f67f82e5aa9c1f7af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 02/36] fix: keep directive prologues in front of injected code

Function counters were injected before 'use strict' (and any other directive)
of a function body, and the coverage template before the directives of a script
or the second directive of a module, so that directives lost their meaning:
instrumented sloppy scripts with strict functions or a 'use strict' prologue ran
in sloppy mode. Directives of scripts and function bodies are also no longer
counted as statements, as it was already the case for modules.
---
 .../macros/instrumentation_counter_helper.rs  | 24 +++++++++----
 .../instrumentation_stmt_counter_helper.rs    | 10 ++++--
 .../src/macros/instrumentation_visitor.rs     | 35 +++----------------
 .../src/visitors/coverage_visitor.rs          | 31 +++++++++++++---
 4 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..b81ca8b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -163,6 +163,23 @@ macro_rules! instrumentation_counter_helper {
             }));
         }
 
+        /// Prepend given counter to the fn body. Directives (`use strict`) should stay
+        /// at the top of the body, otherwise they lose their meaning.
+        fn prepend_fn_counter(&self, stmts: &mut Vec<Stmt>, counter: Expr) {
+            let idx = stmts
+                .iter()
+                .take_while(|stmt| swc_core::ecma::utils::IsDirective::directive_continue(*stmt))
+                .count();
+
+            stmts.insert(
+                idx,
+                Stmt::Expr(ExprStmt {
+                    span: swc_core::common::DUMMY_SP,
+                    expr: Box::new(counter),
+                }),
+            );
+        }
+
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
@@ -194,12 +211,7 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    self.prepend_fn_counter(&mut blockstmt.stmts, b);
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..df507c5 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -7,8 +7,14 @@ macro_rules! instrumentation_stmt_counter_helper {
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
             let mut new_stmts = vec![];
 
-            for mut stmt in stmts.drain(..) {
-                if !self.is_injected_counter_stmt(&stmt) {
+            // Directives of the fn body precede the injected fn counter, keep those as is.
+            let directives = stmts
+                .iter()
+                .position(|stmt| self.is_injected_counter_stmt(stmt))
+                .unwrap_or(0);
+
+            for (idx, mut stmt) in stmts.drain(..).enumerate() {
+                if idx >= directives && !self.is_injected_counter_stmt(&stmt) {
                     let (old, ignore_current) = self.on_enter(&mut stmt);
 
                     match ignore_current {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..1843cdb 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -62,14 +62,9 @@ macro_rules! instrumentation_visitor {
                         );
 
                         // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
+                        self.prepend_fn_counter(&mut block_stmt.stmts, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -470,12 +465,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.prepend_fn_counter(&mut body.stmts, b);
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -502,12 +492,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.prepend_fn_counter(&mut body.stmts, b);
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -556,12 +541,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.prepend_fn_counter(&mut body.stmts, b);
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -588,12 +568,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.prepend_fn_counter(&mut body.stmts, b);
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e892be..a0ff11c 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -142,6 +142,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             self.nodes = new_nodes;
         }
 
+        // Directives should stay at the top of the code.
+        let directives = items
+            .iter()
+            .take_while(|item| item.directive_continue())
+            .count();
+
         // TODO: Should module_items need to be added in self.nodes?
         let mut new_items = vec![];
         for mut item in items.drain(..) {
@@ -183,8 +189,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            let idx = std::cmp::max(directives, 1);
+            items.insert(idx, ModuleItem::Stmt(coverage_template));
+            items.insert(idx + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -201,8 +208,20 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
+        // Directives should stay at the top of the code.
+        let directives = items
+            .body
+            .iter()
+            .take_while(|stmt| stmt.directive_continue())
+            .count();
+
         let mut new_items = vec![];
-        for mut item in items.body.drain(..) {
+        for (idx, mut item) in items.body.drain(..).enumerate() {
+            if idx < directives {
+                new_items.push(item);
+                continue;
+            }
+
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
             new_items.push(item);
@@ -212,8 +231,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        items.body.insert(directives, coverage_template);
+        items
+            .body
+            .insert(directives + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From e2b37cbda4aa6a0ece85c3ba4f0af6b5dc2fe80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 03/36] fix: honour ignore hints on top level statements of
 scripts

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index a0ff11c..2f30871 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -222,9 +222,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 continue;
             }
 
+            let (old, _ignore_current) = self.on_enter(&mut item);
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
             new_items.push(item);
+            self.on_exit(old);
         }
         items.body = new_items;
 
-- 
2.43.0


From 19cfab8109b5e508f98ddd5b59ed050b52d276a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 04/36] fix: instrument the insides of logical expression
 operands

An operand that contained another logical expression anywhere inside (call
arguments, function bodies, ...) was traversed by a visitor that only knows
logical expressions: the operand itself got no counter, the inner expression was
reported as part of the outer branch, and statements, functions and conditionals
inside were not covered at all. Operands under reportLogic were not traversed
either. Only logical expressions that are operands themselves, directly or
in parentheses, belong to the branch.
---
 .../macros/instrumentation_counter_helper.rs  | 45 +++++++------
 .../src/macros/instrumentation_visitor.rs     |  1 +
 .../src/visitors/finders.rs                   | 22 +------
 .../src/visitors/logical_expr_visitor.rs      | 65 -------------------
 .../src/visitors/mod.rs                       |  1 -
 5 files changed, 28 insertions(+), 106 deletions(-)
 delete mode 100644 packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index b81ca8b..aa15e1d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -70,28 +70,36 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 return;
             }
 
-            // Logical expression can have inner logical expression as non-direct child
-            // (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`, logical || expr is child of ParenExpr.
-            // Try to look up if current expr is the `leaf` of whole logical expr tree.
-            let mut has_inner_logical_expr = crate::visitors::finders::LogicalExprLeafFinder(false);
-            expr.visit_with(&mut has_inner_logical_expr);
-
-            // If current expr have inner logical expr, traverse until reaches to the leaf
-            if has_inner_logical_expr.0 {
-                let mut visitor = crate::visitors::logical_expr_visitor::LogicalExprVisitor::new(
-                    self.source_map.clone(),
-                    self.comments.clone(),
-                    self.cov.clone(),
-                    self.instrument_options.clone(),
-                    self.nodes.clone(),
-                    should_ignore,
-                    branch,
-                );
+            // Logical expression can have inner logical expression as an operand, possibly wrapped
+            // by ParenExpr (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`). Those belong to the
+            // same branch, traverse until reaches to the leaf. Any other logical expression inside of
+            // the operand (i.e call arguments, fn body) is not part of it.
+            let mut inner = &mut *expr;
+            while let Expr::Paren(ParenExpr { expr, .. }) = inner {
+                inner = &mut **expr;
+            }
+
+            if let Expr::Bin(BinExpr {
+                op: BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing,
+                left,
+                right,
+                span: inner_span,
+                ..
+            }) = inner
+            {
+                let should_ignore =
+                    crate::hint_comments::should_ignore(&self.comments, Some(&*inner_span));
+                if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
+                    return;
+                }
 
-                expr.visit_mut_children_with(&mut visitor);
+                self.wrap_bin_expr_with_branch_counter(branch, &mut **left);
+                self.wrap_bin_expr_with_branch_counter(branch, &mut **right);
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
                 // Wrap it with branch counter.
+                expr.visit_mut_children_with(self);
+
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
                     let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
@@ -119,7 +127,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                     // replace init with increase expr + init seq
                     *expr = paren_expr;
                 } else {
-                    expr.visit_mut_children_with(self);
                     self.replace_expr_with_branch_counter(expr, branch);
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 1843cdb..5f121b7 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -844,6 +844,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..8ebe7d8 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,6 +1,6 @@
 use swc_core::ecma::{
     ast::*,
-    visit::{Visit, VisitWith},
+    visit::Visit,
 };
 
 /// A visitor to check if counter need to be `hoisted` for certain types of nodes.
@@ -73,23 +73,3 @@ impl Visit for ExprFinder {
         self.0 = true;
     }
 }
-
-/// Traverse down given nodes to check if it's leaf of the logical expr,
-/// or have inner logical expr to recurse.
-#[derive(Debug)]
-pub struct LogicalExprLeafFinder(pub bool);
-
-impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
-                // short curcuit, we know it's not leaf
-                return;
-            }
-            _ => {}
-        }
-
-        bin_expr.visit_children_with(self);
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
deleted file mode 100644
index 53fea27..0000000
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ /dev/null
@@ -1,65 +0,0 @@
-use swc_core::{
-    common::{comments::Comments, util::take::Take, SourceMapper},
-    ecma::visit::{VisitMut, VisitMutWith, VisitWith},
-};
-use tracing::instrument;
-
-use crate::{create_instrumentation_visitor, instrumentation_branch_wrap_counter_helper};
-
-create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
-
-/// A visitor to traverse down given logical expr's value (left / right) with existing branch idx.
-/// This is required to preserve branch id to recursively traverse logical expr's inner child.
-impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
-    instrumentation_branch_wrap_counter_helper!();
-}
-
-impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-    fn visit_mut_expr(&mut self, expr: &mut Expr) {
-        let (old, _ignore_current) = self.on_enter(expr);
-        expr.visit_mut_children_with(self);
-        self.on_exit(old);
-    }
-
-    // TODO: common logic between coveragevisitor::visit_mut_bin_expr
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_bin_expr(&mut self, bin_expr: &mut BinExpr) {
-        // We don't use self.on_enter() here since Node::LogicalExpr is a dialect of BinExpr
-        // which we can't pass directly via on_enter() macro
-        let old = self.should_ignore;
-        let ignore_current = match old {
-            Some(crate::hint_comments::IgnoreScope::Next) => old,
-            _ => {
-                self.should_ignore =
-                    crate::hint_comments::should_ignore(&self.comments, Some(&bin_expr.span));
-                self.should_ignore
-            }
-        };
-
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {
-                self.nodes.push(crate::Node::BinExpr);
-                bin_expr.visit_mut_children_with(self);
-                self.on_exit(old);
-            }
-            _ => {
-                match &bin_expr.op {
-                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                        self.nodes.push(crate::Node::LogicalExpr);
-
-                        // Iterate over each expr, wrap it with branch counter.
-                        // This does not create new branch counter - should use parent's index instead.
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
-                    }
-                    _ => {
-                        // iterate as normal for non loigical expr
-                        self.nodes.push(crate::Node::BinExpr);
-                        bin_expr.visit_mut_children_with(self);
-                        self.on_exit(old);
-                    }
-                }
-            }
-        }
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/mod.rs b/packages/swc-coverage-instrument/src/visitors/mod.rs
index 60c3257..601504a 100644
--- a/packages/swc-coverage-instrument/src/visitors/mod.rs
+++ b/packages/swc-coverage-instrument/src/visitors/mod.rs
@@ -1,5 +1,4 @@
 pub mod coverage_visitor;
 pub mod finders;
-pub mod logical_expr_visitor;
 pub mod stmt_like_visitor;
 pub mod switch_case_visitor;
-- 
2.43.0


From 0b6c8a036303ca83feb8685e7da5e5ce23b7bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 05/36] fix: cover default values as branches of their own

With reportLogic the default value of a parameter or pattern updated a truth
counter that does not exist, so using any truthy default threw a TypeError in
instrumented code. Default values that are logical expressions reported the
operands as paths of the default-arg branch, default values nested in a pattern
that has a default itself or in shorthand properties were not covered at all.
---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../macros/instrumentation_counter_helper.rs  | 18 +++++++++++++
 .../src/macros/instrumentation_visitor.rs     | 26 ++++++++++++++-----
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 4 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index af358de..74c1485 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -191,6 +191,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index aa15e1d..7957cd6 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -226,6 +226,24 @@ macro_rules! instrumentation_counter_helper {
             }
         }
 
+        /// Create a branch for the default value of given pattern. It is a single branch path of
+        /// its own whether the value is a logical expression or not, and does not have b_t counter.
+        fn cover_default_value(&mut self, range: &crate::Range, value: &mut Expr) {
+            let branch =
+                self.cov
+                    .borrow_mut()
+                    .new_branch(crate::BranchType::DefaultArg, range, false);
+
+            let should_ignore =
+                crate::hint_comments::should_ignore(&self.comments, Some(&value.span()));
+            if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
+                return;
+            }
+
+            value.visit_mut_with(self);
+            self.replace_expr_with_branch_counter(value, branch);
+        }
+
         fn is_injected_counter_expr(&self, expr: &Expr) -> bool {
             if let Expr::Update(UpdateExpr { arg, .. }) = expr {
                 if let Expr::Member(MemberExpr { obj, .. }) = &**arg {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 5f121b7..f4fc98a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -868,13 +868,27 @@ macro_rules! instrumentation_visitor {
                         &self.source_map,
                         &assign_pat.span,
                     );
-                    let branch = self.cov.borrow_mut().new_branch(
-                        crate::BranchType::DefaultArg,
-                        &range,
-                        false,
-                    );
+                    assign_pat.left.visit_mut_with(self);
+                    self.cover_default_value(&range, &mut *assign_pat.right);
+                }
+            }
+            self.on_exit(old);
+        }
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+        // AssignmentPattern in a shorthand property (`{ a = 1 }`): entries(coverAssignmentPattern),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if let Some(value) = &mut assign_pat_prop.value {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        self.cover_default_value(&range, value);
+                    }
                 }
             }
             self.on_exit(old);
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..0699632 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -44,6 +44,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From b78dc493a0d73a52dc7d88879e75b4055ac5c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 06/36] fix: count initialisers that are expression bodied
 arrows or classes

The check for the position of the declarator was written for an older shape of
the node stack and only ever matched the top level of a module: the same
initialiser inside a function, block or loop got no statement counter.
---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 7957cd6..b917f35 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -329,10 +329,11 @@ macro_rules! instrumentation_counter_helper {
 
                     if let Some(parent) = parent {
                         match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
+                            // export declaration has its own counter
+                            crate::Node::ModuleDecl => {}
+                            _ => {
                                 self.mark_prepend_stmt_counter(&span);
                             }
-                            _ => {}
                         }
                     }
                 } else {
-- 
2.43.0


From d732cce0ad9353d5f51c94b95c71563ab3e12fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 07/36] fix: merge truth counters by location

Truth counters were merged after the branch map of the receiver had already been
replaced by the merged one, so they were attributed to the wrong branch (or the
merge panicked) as soon as ids differ, they got ids of their own instead of those
of the merged branches, and were dropped if only the other side had any.
---
 packages/istanbul-oxide/src/file_coverage.rs | 44 +++++++++++++-------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..a56155b 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -295,24 +295,40 @@ impl FileCoverage {
             &coverage.branch_map,
             |branch: &Branch| key_from_loc(&branch.locations[0]),
         );
-        self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
-            }
+        if self.b_t.is_some() || coverage.b_t.is_some() {
+            let empty: BranchHitMap = Default::default();
+            let (branches_true_hits_merged, branches_true_map_merged) = merge_properties_hits_vec(
+                self.b_t.as_ref().unwrap_or(&empty),
+                &self.branch_map,
+                coverage.b_t.as_ref().unwrap_or(&empty),
+                &coverage.branch_map,
+                |branch: &Branch| key_from_loc(&branch.locations[0]),
+            );
+
+            // Only some of branches have truthiness, hits should be keyed by the index of
+            // the merged branch instead of its own.
+            let branch_idx: IndexMap<String, u32> = branches_map_merged
+                .iter()
+                .map(|(idx, branch)| (key_from_loc(&branch.locations[0]), *idx))
+                .collect();
+
+            self.b_t = Some(
+                branches_true_hits_merged
+                    .into_iter()
+                    .filter_map(|(idx, hits)| {
+                        let branch = branches_true_map_merged.get(&idx)?;
+                        let merged_idx = branch_idx.get(&key_from_loc(&branch.locations[0]))?;
+                        Some((*merged_idx, hits))
+                    })
+                    .collect(),
+            );
         }
+
+        self.b = branches_hits_merged;
+        self.branch_map = branches_map_merged;
     }
 
     pub fn compute_simple_totals<T>(line_map: &IndexMap<T, u32>) -> Totals {
-- 
2.43.0


From 75a0cfd36476b5ebed58fe24288af627c32dd0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 08/36] fix: count constructors, private methods and methods
 with literal keys

Class methods whose key is not an identifier were skipped with everything inside
them, constructors and private methods had no function entry at all, and object
methods with such keys reported an empty declaration range.
---
 .../macros/create_instrumentation_visitor.rs  |  2 +
 .../src/macros/instrumentation_visitor.rs     | 77 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  2 +
 3 files changed, 81 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 74c1485..fd81d3d 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -173,6 +173,8 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(PrivateMethod);
+         on_enter!(Constructor);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f4fc98a..39e747a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -384,6 +384,82 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = Ident {
+                            sym: "anonymous".into(),
+                            span: class_method.key.span(),
+                            ..Ident::dummy()
+                        };
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let ident = Ident {
+                        sym: format!("#{}", private_method.key.name).into(),
+                        span: private_method.key.span,
+                        ..Ident::dummy()
+                    };
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v.as_str() == &*ident.sym);
+
+                    if !should_ignore_via_options {
+                        self.create_fn_instrumentation(&Some(&ident), &mut private_method.function);
+                        private_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassMethod (constructor): entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v.as_str() == "constructor");
+
+                    if !should_ignore_via_options {
+                        if let Some(body) = &mut constructor.body {
+                            let span = constructor.key.span();
+                            let range =
+                                crate::lookup_range::get_range_from_span(&self.source_map, &span);
+                            let body_range =
+                                crate::lookup_range::get_range_from_span(&self.source_map, &body.span);
+                            let index = self.cov.borrow_mut().new_function(
+                                &Some("constructor".to_string()),
+                                &range,
+                                &body_range,
+                            );
+    
+                            let b = crate::create_increase_counter_expr(
+                                &crate::constants::idents::IDENT_F,
+                                index,
+                                &self.cov_fn_ident,
+                                None,
+                            );
+                            self.prepend_fn_counter(&mut body.stmts, b);
+                        }
+                        constructor.visit_mut_children_with(self);
                     }
                 }
             }
@@ -416,6 +492,7 @@ macro_rules! instrumentation_visitor {
                     } else {
                         let ident = Ident {
                             sym: "anonymous".into(),
+                            span: method_prop.key.span(),
                             ..Ident::dummy()
                         };
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 0699632..2445a9f 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,8 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    PrivateMethod,
+    Constructor,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
-- 
2.43.0


From 7502de1993df791a505012887af0ed4bb68bcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 09/36] fix: do not panic on functions without a body

Overload signatures, declare functions and abstract methods reach the visitor
when it runs before types are stripped.
---
 .../macros/instrumentation_counter_helper.rs  | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index b917f35..fbcf51e 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -197,32 +197,23 @@ macro_rules! instrumentation_counter_helper {
             };
 
             let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
-            let body_span = if let Some(body) = &function.body {
-                body.span
-            } else {
-                // TODO: probably this should never occur
-                function.span
-            };
 
-            let body_range = crate::lookup_range::get_range_from_span(&self.source_map, &body_span);
-            let index = self
-                .cov
-                .borrow_mut()
-                .new_function(&name, &range, &body_range);
-
-            match &mut function.body {
-                Some(blockstmt) => {
-                    let b = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_F,
-                        index,
-                        &self.cov_fn_ident,
-                        None,
-                    );
-                    self.prepend_fn_counter(&mut blockstmt.stmts, b);
-                }
-                _ => {
-                    unimplemented!("Unable to process function body node type")
-                }
+            // There is nothing to execute without body (i.e overload signatures, `declare function`).
+            if let Some(blockstmt) = &mut function.body {
+                let body_range =
+                    crate::lookup_range::get_range_from_span(&self.source_map, &blockstmt.span);
+                let index = self
+                    .cov
+                    .borrow_mut()
+                    .new_function(&name, &range, &body_range);
+
+                let b = crate::create_increase_counter_expr(
+                    &crate::constants::idents::IDENT_F,
+                    index,
+                    &self.cov_fn_ident,
+                    None,
+                );
+                self.prepend_fn_counter(&mut blockstmt.stmts, b);
             }
         }
 
-- 
2.43.0


From 2fca8204185ab62e2cbca08f50da68f026e16687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 10/36] fix: keep the debug comment closed when coverage data
 contains '*/'

---
 .../src/coverage_template/create_coverage_fn_decl.rs           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index c73fe06..0a70956 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -154,6 +154,9 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
     if attach_debug_comment {
         let coverage_data_json_str =
             serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
+        // Values (path, source contents) may contain the end of comment mark, which can only be in
+        // a JSON string: escape it to an equivalent.
+        let coverage_data_json_str = coverage_data_json_str.replace("*/", "*\\/");
 
         // Append coverage data as stringified JSON comments at the bottom of transformed code.
         // Currently plugin does not have way to pass any other data to the host except transformed program.
-- 
2.43.0


From 3fcf0b8dee3510226e533db6c75b458df94dfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 11/36] Add guarded hooks exposing coverage summary internals
 to the verification harness

---
 packages/istanbul-oxide/Cargo.toml      |  4 ++++
 packages/istanbul-oxide/src/coverage.rs |  7 +++++++
 packages/istanbul-oxide/src/lib.rs      | 22 ++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/packages/istanbul-oxide/Cargo.toml b/packages/istanbul-oxide/Cargo.toml
index f3f5bb7..d6ab010 100644
--- a/packages/istanbul-oxide/Cargo.toml
+++ b/packages/istanbul-oxide/Cargo.toml
@@ -7,6 +7,10 @@ name        = "istanbul-oxide"
 repository  = "https://github.com/kwonoj/swc-coverage-instrument"
 version     = "0.0.31"
 
+[features]
+# Exposes internals to the verification harness, not for general use.
+verif-hooks = []
+
 [dependencies]
 indexmap = { workspace = true, features = ["serde"] }
 serde    = { workspace = true, features = ["derive"] }
diff --git a/packages/istanbul-oxide/src/coverage.rs b/packages/istanbul-oxide/src/coverage.rs
index d6ff480..e0c4829 100644
--- a/packages/istanbul-oxide/src/coverage.rs
+++ b/packages/istanbul-oxide/src/coverage.rs
@@ -14,3 +14,10 @@ impl Coverage {
         }
     }
 }
+
+#[cfg(feature = "verif-hooks")]
+impl Coverage {
+    pub fn parts(&self) -> (u32, u32, f32) {
+        (self.covered, self.total, self.coverage)
+    }
+}
diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..edb8018 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -14,3 +14,25 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+/// Internals exposed to the verification harness.
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub use crate::coverage::Coverage;
+    pub use crate::coverage_summary::{CoveragePercentage, CoverageSummary, Totals};
+
+    pub fn percent(covered: u32, total: u32) -> f32 {
+        crate::percent::percent(covered, total)
+    }
+
+    /// lines, statements, functions, branches, branches_true
+    pub fn summary_parts(s: &CoverageSummary) -> (Totals, Totals, Totals, Totals, Option<Totals>) {
+        (
+            s.lines,
+            s.statements,
+            s.functions,
+            s.branches,
+            s.branches_true,
+        )
+    }
+}
-- 
2.43.0


From 35c86de8d26f83dd1f3269736dc643b5080d0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 12/36] fix: do not instrument tagged template initialisers
 twice

---
 .../src/macros/instrumentation_counter_helper.rs           | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index fbcf51e..64e5839 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -267,12 +267,9 @@ macro_rules! instrumentation_counter_helper {
             // Special handling for tagged template expressions (like emotion styled components)
             // to preserve the template relationship and avoid wrapping in sequence expressions
             if let Expr::TaggedTpl(_) = expr {
-                // For tagged templates, prepend statement counter instead of wrapping
+                // For tagged templates, statement counter is prepended instead of wrapping
+                // by visit_mut_tagged_tpl once the caller visits its children.
                 // This preserves the template relationship
-                let span = expr.span();
-                self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
                 return;
             }
 
-- 
2.43.0


From 147f719873ec42a31874b0dfede7918f45d16d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 13/36] fix: instrument the object of a with statement

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 39e747a..a0442c4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1008,6 +1008,8 @@ macro_rules! instrumentation_visitor {
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
 
+                    with_stmt.obj.visit_mut_with(self);
+
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
                         self.insert_stmts_counter(&mut body_block.stmts);
-- 
2.43.0


From dce58351a38ce8dea87a09be92b25c0cb75767bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 14/36] fix: cover default values of arrow function params

---
 .../src/macros/instrumentation_visitor.rs                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index a0442c4..e9a8ad0 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -63,6 +63,8 @@ macro_rules! instrumentation_visitor {
 
                         // insert fn counter expression
                         self.prepend_fn_counter(&mut block_stmt.stmts, b);
+                        // default values of the params
+                        arrow_expr.params.visit_mut_with(self);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
                     }
@@ -92,6 +94,9 @@ macro_rules! instrumentation_visitor {
                             expr: Box::new(b),
                         })];
 
+                        // default values of the params
+                        arrow_expr.params.visit_mut_with(self);
+
                         // single line expr in arrow fn need to be converted into return stmt
                         // Note we should preserve original expr's span, otherwise statementmap will lose correct
                         // code location
-- 
2.43.0


From 7c1777662a695cce995f6e8c151424e88b6e8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 15/36] fix: keep counters of tagged templates in switch heads

---
 .../src/macros/instrumentation_visitor.rs                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e9a8ad0..d9fec4f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -776,6 +776,9 @@ macro_rules! instrumentation_visitor {
                     );
 
                     switch_stmt.visit_mut_children_with(&mut visitor);
+
+                    // counters marked in the discriminant and the tests of the cases
+                    self.before.extend(visitor.before.drain(..));
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 4f61d54125e2725db4aab860c50ec71b8f8cbda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 16/36] fix: count initialisers in place unless they are
 functions or classes

---
 .../macros/instrumentation_counter_helper.rs    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 64e5839..5a9a27c 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -274,6 +274,23 @@ macro_rules! instrumentation_counter_helper {
             }
 
             let span = expr.span();
+            // Only fn / class itself is hoisted, to keep the name it infers from its declarator.
+            // Anything else evaluates in place, so does its counter.
+            let mut inner = &*expr;
+            while let Expr::Paren(ParenExpr { expr, .. })
+            | Expr::TsAs(TsAsExpr { expr, .. })
+            | Expr::TsSatisfies(TsSatisfiesExpr { expr, .. })
+            | Expr::TsConstAssertion(TsConstAssertion { expr, .. })
+            | Expr::TsTypeAssertion(TsTypeAssertion { expr, .. })
+            | Expr::TsNonNull(TsNonNullExpr { expr, .. }) = inner
+            {
+                inner = &**expr;
+            }
+            if !matches!(inner, Expr::Fn(..) | Expr::Arrow(..) | Expr::Class(..)) {
+                self.replace_expr_with_stmt_counter(expr);
+                return;
+            }
+
             // This is ugly, poor man's substitute to istanbul's `insertCounter` to determine
             // when to replace givn expr to wrapped Paren or prepend stmt counter.
             // We can't do insert parent node's sibling in downstream's child node.
-- 
2.43.0


From aa12ddd621f397afe0bd36967264f8c13a746158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 17/36] fix: count string statements behind the directives of a
 module

---
 .../src/visitors/coverage_visitor.rs                 | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 2f30871..3464dcd 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -150,13 +150,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // TODO: Should module_items need to be added in self.nodes?
         let mut new_items = vec![];
-        for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
+        for (idx, mut item) in items.drain(..).enumerate() {
+            // Do not create coverage instrumentation for directives.
+            if idx < directives {
+                new_items.push(item);
+                continue;
             }
 
             let (old, _ignore_current) = match &mut item {
-- 
2.43.0


From 7ed89f6bce32b7e2d5552cc763a04be26300db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 18/36] fix: keep the insides of ignored logical operands

---
 .../src/macros/instrumentation_counter_helper.rs    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 5a9a27c..cf90be4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -66,10 +66,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
             let span = expr.span();
             let should_ignore = crate::hint_comments::should_ignore(&self.comments, Some(&span));
 
-            if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
-                return;
-            }
-
             // Logical expression can have inner logical expression as an operand, possibly wrapped
             // by ParenExpr (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`). Those belong to the
             // same branch, traverse until reaches to the leaf. Any other logical expression inside of
@@ -87,6 +83,10 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 ..
             }) = inner
             {
+                if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
+                    return;
+                }
+
                 let should_ignore =
                     crate::hint_comments::should_ignore(&self.comments, Some(&*inner_span));
                 if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
@@ -100,6 +100,11 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 // Wrap it with branch counter.
                 expr.visit_mut_children_with(self);
 
+                // Only the leaf itself is ignored, not things inside of it
+                if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
+                    return;
+                }
+
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
                     let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
-- 
2.43.0


From 7add20d2591febc59342e26b1ebea1e000d5fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 19/36] fix: honour ignore file hints behind a shebang

---
 .../swc-coverage-instrument/src/utils/hint_comments.rs    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/utils/hint_comments.rs b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
index 2e93123..a2ebd7a 100644
--- a/packages/swc-coverage-instrument/src/utils/hint_comments.rs
+++ b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
@@ -3,7 +3,7 @@ use regex::Regex as Regexp;
 use swc_core::{
     common::{
         comments::{Comment, Comments},
-        Span,
+        Span, Spanned,
     },
     ecma::ast::*,
 };
@@ -24,6 +24,11 @@ pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program)
         Program::Module(module) => module.span,
         Program::Script(script) => script.span,
     };
+    // Program starts with the shebang if there is one, comments behind it belong to the first item
+    let first = match &program {
+        Program::Module(module) => module.body.first().map(|item| item.span_lo()),
+        Program::Script(script) => script.body.first().map(|stmt| stmt.span_lo()),
+    };
 
     let validate_comments = |comments: &Option<Vec<Comment>>| {
         if let Some(comments) = comments {
@@ -40,6 +45,7 @@ pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program)
         comments.get_leading(pos.hi),
         comments.get_trailing(pos.lo),
         comments.get_trailing(pos.hi),
+        first.and_then(|first| comments.get_leading(first)),
     ]
     .iter()
     .any(|c| validate_comments(c))
-- 
2.43.0


From 73085dced8779d757360a40c853666d981ca0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 20/36] fix: do not count ignored const exports

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 3464dcd..0282cec 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -157,7 +157,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 continue;
             }
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -169,7 +169,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From 619d552a7d4bb01cd18005ac9b2cd57cd61b7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 21/36] fix: do not treat default exported functions as
 function expressions

---
 .../src/visitors/coverage_visitor.rs          | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 0282cec..9093f22 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -246,8 +246,25 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         match ignore_current {
             Some(crate::hint_comments::IgnoreScope::Next) => {}
             _ => {
-                // noop
-                export_default_decl.visit_mut_children_with(self);
+                match &mut export_default_decl.decl {
+                    // It is a declaration even though ast represents it as an expression,
+                    // `ignore_class_methods` does not apply to its name.
+                    DefaultDecl::Fn(fn_expr) => {
+                        let (old, ignore_current) = self.on_enter(fn_expr);
+                        match ignore_current {
+                            Some(crate::hint_comments::IgnoreScope::Next) => {}
+                            _ => {
+                                self.create_fn_instrumentation(
+                                    &fn_expr.ident.as_ref(),
+                                    &mut fn_expr.function,
+                                );
+                                fn_expr.visit_mut_children_with(self);
+                            }
+                        }
+                        self.on_exit(old);
+                    }
+                    decl => decl.visit_mut_with(self),
+                }
             }
         }
         self.on_exit(old);
-- 
2.43.0


From b5825ae8081856075f7fab3386955a13f7dc1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 22/36] fix: do not invoke getters of operands when reporting
 logic

---
 .../src/instrument/create_increase_true_expr.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 9cacd16..844616b 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -150,7 +150,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                             ..Ident::dummy()
                         })),
                         prop: MemberProp::Ident(IdentName {
-                            sym: "values".into(),
+                            sym: "keys".into(),
                             ..IdentName::dummy()
                         }),
                         ..MemberExpr::dummy()
-- 
2.43.0


From 7162167ff31d2685f80405631f09f808f33d40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 23/36] fix: do not add up a location listed multiple times in
 merged coverage

---
 packages/istanbul-oxide/src/file_coverage.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index a56155b..50d9370 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -34,12 +34,19 @@ fn merge_properties_hits_vec(
         items.insert(item_key, (item_hits.clone(), item.clone()));
     }
 
+    // Same location can be listed multiple times, consolidate it as same as the first.
+    let mut second_items: IndexMap<String, (&Vec<u32>, &Branch)> = Default::default();
+
     for (key, item_hits) in second_hits {
         let item = second_map
             .get(key)
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
 
+        second_items.insert(item_key, (item_hits, item));
+    }
+
+    for (item_key, (item_hits, item)) in second_items {
         items
             .entry(item_key)
             .and_modify(|pair| {
@@ -86,12 +93,19 @@ where
         items.insert(item_key, (*item_hits, item.clone()));
     }
 
+    // Same location can be listed multiple times, consolidate it as same as the first.
+    let mut second_items: IndexMap<String, (&u32, &T)> = Default::default();
+
     for (key, item_hits) in second_hits {
         let item = second_map
             .get(key)
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
 
+        second_items.insert(item_key, (item_hits, item));
+    }
+
+    for (item_key, (item_hits, item)) in second_items {
         items
             .entry(item_key)
             .and_modify(|pair| {
-- 
2.43.0


From 70d2c9f565e7c775d1aafaa71a4d9607697297c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 24/36] fix: do not merge different branches sharing the first
 location

---
 packages/istanbul-oxide/src/file_coverage.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 50d9370..dac9dd8 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,6 +16,14 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+// First location alone is ambiguous: a branch which have its first location ignored
+// can start with other branch.
+fn key_from_branch(branch: &Branch) -> String {
+    let loc = branch.loc.as_ref().map(key_from_loc).unwrap_or_default();
+
+    format!("{}|{}", loc, key_from_loc(&branch.locations[0]))
+}
+
 fn merge_properties_hits_vec(
     first_hits: &BranchHitMap,
     first_map: &BranchMap,
@@ -307,7 +315,7 @@ impl FileCoverage {
             &self.branch_map,
             &coverage.b,
             &coverage.branch_map,
-            |branch: &Branch| key_from_loc(&branch.locations[0]),
+            key_from_branch,
         );
 
         // Tracking additional information about branch truthiness
@@ -319,14 +327,14 @@ impl FileCoverage {
                 &self.branch_map,
                 coverage.b_t.as_ref().unwrap_or(&empty),
                 &coverage.branch_map,
-                |branch: &Branch| key_from_loc(&branch.locations[0]),
+                key_from_branch,
             );
 
             // Only some of branches have truthiness, hits should be keyed by the index of
             // the merged branch instead of its own.
             let branch_idx: IndexMap<String, u32> = branches_map_merged
                 .iter()
-                .map(|(idx, branch)| (key_from_loc(&branch.locations[0]), *idx))
+                .map(|(idx, branch)| (key_from_branch(branch), *idx))
                 .collect();
 
             self.b_t = Some(
@@ -334,7 +342,7 @@ impl FileCoverage {
                     .into_iter()
                     .filter_map(|(idx, hits)| {
                         let branch = branches_true_map_merged.get(&idx)?;
-                        let merged_idx = branch_idx.get(&key_from_loc(&branch.locations[0]))?;
+                        let merged_idx = branch_idx.get(&key_from_branch(branch))?;
                         Some((*merged_idx, hits))
                     })
                     .collect(),
-- 
2.43.0


From ec2fd57f3c5acf559a076a9ebee195977264a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 25/36] fix: read partial locations written by istanbul

---
 packages/istanbul-oxide/src/range.rs | 14 +++++++++++++-
 packages/istanbul-oxide/src/types.rs |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/istanbul-oxide/src/range.rs b/packages/istanbul-oxide/src/range.rs
index 4936ecd..b4d457a 100644
--- a/packages/istanbul-oxide/src/range.rs
+++ b/packages/istanbul-oxide/src/range.rs
@@ -1,10 +1,22 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(Copy, Clone, Default, Debug, PartialEq, Serialize, Deserialize)]
 pub struct Location {
+    // Implicit else of an if statement in istanbul does not have its own position (`{}`).
+    #[serde(default)]
     pub line: u32,
+    #[serde(default, deserialize_with = "deserialize_column")]
     pub column: u32,
 }
+
+/// Istanbul remaps the end of a line into column `Infinity`, which is serialized into `null`.
+fn deserialize_column<'de, D>(deserializer: D) -> Result<u32, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Ok(Option::deserialize(deserializer)?.unwrap_or(u32::MAX))
+}
+
 impl Location {
     pub fn default() -> Location {
         Location { line: 0, column: 0 }
diff --git a/packages/istanbul-oxide/src/types.rs b/packages/istanbul-oxide/src/types.rs
index 7246c73..57bc69e 100644
--- a/packages/istanbul-oxide/src/types.rs
+++ b/packages/istanbul-oxide/src/types.rs
@@ -8,6 +8,8 @@ pub struct Function {
     pub name: String,
     pub decl: Range,
     pub loc: Range,
+    // Deprecated, remapped coverage in istanbul does not have it.
+    #[serde(default)]
     pub line: u32,
 }
 
-- 
2.43.0


From e6ab6f87278dc7976044c8ab0e0757211e46bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 26/36] fix: namespaces share the coverage function of their
 file

---
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 .../src/visitors/coverage_visitor.rs          | 20 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 2445a9f..17cb204 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -48,6 +48,7 @@ pub enum Node {
     AssignPat,
     AssignPatProp,
     TaggedTpl,
+    TsModuleBlock,
 }
 
 impl Display for Node {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 9093f22..577d2a1 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -185,6 +185,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        // The body of a namespace shares the coverage function of its file.
+        if self.nodes.contains(&crate::Node::TsModuleBlock) {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
@@ -202,6 +207,21 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
     }
 
+    // Ambient declarations do not exist at run time.
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_decl(&mut self, decl: &mut TsModuleDecl) {
+        if !decl.declare {
+            decl.visit_mut_children_with(self);
+        }
+    }
+
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
+        self.nodes.push(crate::Node::TsModuleBlock);
+        block.visit_mut_children_with(self);
+        self.nodes.pop();
+    }
+
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_script(&mut self, items: &mut Script) {
         if self.is_instrumented_already() {
-- 
2.43.0


From 7ca057087a3d38a5cf68b63a1e7db266bf466a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 27/36] fix: no location for positions swc reserves for
 generated code

---
 packages/swc-coverage-instrument/src/utils/lookup_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/utils/lookup_range.rs b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
index 986ce1e..1b09ff1 100644
--- a/packages/swc-coverage-instrument/src/utils/lookup_range.rs
+++ b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
@@ -10,7 +10,7 @@ pub fn get_range_from_span<S: SourceMapper>(source_map: &Arc<S>, span: &Span) ->
     // which are not able to locate original locations.
     // This'll makes to create less-accurate coverage for those types (i.e enums)
     // while waiting upstream decision instead of hard panic.
-    if span.hi.is_dummy() || span.lo.is_dummy() {
+    if span.is_dummy() || span.hi.is_dummy() || span.lo.is_dummy() {
         return Default::default();
     }
 
-- 
2.43.0


From e1b0173b65c0ef6fae157ad53a916ca54f248d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 28/36] fix: do not count exported ambient constants

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 577d2a1..322dfb1 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -170,6 +170,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
                     if var_decl.kind == VarDeclKind::Const
+                        && !var_decl.declare
                         && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
                     {
                         self.mark_prepend_stmt_counter(&export_decl.span);
-- 
2.43.0


From 3d06dc3904374fe9caad2261b9457d888b02d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 29/36] fix: keep logic counters in one sequence, so that
 generator lowering keeps their order

---
 .../src/macros/instrumentation_counter_helper.rs       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index cf90be4..f22f0a6 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -123,10 +123,18 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                         expr.take(),
                     );
 
+                    // One flat sequence: passes lowering generators do not order
+                    // sequences directly nested in each other around a yield.
+                    let mut exprs = vec![Box::new(increase_expr)];
+                    match increase_true_expr {
+                        Expr::Seq(seq) => exprs.extend(seq.exprs),
+                        expr => exprs.push(Box::new(expr)),
+                    }
+
                     // TODO: duplicated code with replace_expr_with_counter
                     let paren_expr = Expr::Seq(SeqExpr {
                         span: swc_core::common::DUMMY_SP,
-                        exprs: vec![Box::new(increase_expr), Box::new(increase_true_expr)],
+                        exprs,
                     });
 
                     // replace init with increase expr + init seq
-- 
2.43.0


From 15068d7567511c130ecc51036cf10915c6eb1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 30/36] fix: count "use strict" statements that are no
 directives

---
 .../src/macros/instrumentation_visitor.rs             | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d9fec4f..e265871 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -182,15 +180,6 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
-            }
-
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-- 
2.43.0


From 9553ea17d382dbb975111815650c7508daaa0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 31/36] fix: count functions without a block that let and var
 exports bind

---
 .../macros/create_instrumentation_visitor.rs  | 12 ++++++-
 .../macros/instrumentation_counter_helper.rs  | 35 +++++--------------
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index fd81d3d..ca1bc12 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -134,6 +134,17 @@ macro_rules! create_instrumentation_visitor {
             }
          }
 
+         impl<C: Clone + swc_core::common::comments::Comments, S: swc_core::common::SourceMapper> CoverageInstrumentationMutVisitEnter<VarDecl> for $name<C, S> {
+            fn on_enter(&mut self, n: &mut swc_core::ecma::ast::VarDecl) -> (Option<crate::hint_comments::IgnoreScope>, Option<crate::hint_comments::IgnoreScope>) {
+                self.nodes.push(if n.kind == swc_core::ecma::ast::VarDeclKind::Const {
+                    crate::Node::ConstDecl
+                } else {
+                    crate::Node::VarDecl
+                });
+                self.on_enter_with_span(Some(&n.span))
+            }
+         }
+
          impl<C: Clone + swc_core::common::comments::Comments, S: swc_core::common::SourceMapper> CoverageInstrumentationMutVisitEnter<ClassDecl> for $name<C, S> {
             fn on_enter(&mut self, n: &mut swc_core::ecma::ast::ClassDecl) -> (Option<crate::hint_comments::IgnoreScope>, Option<crate::hint_comments::IgnoreScope>) {
                 self.nodes.push(crate::Node::ClassDecl);
@@ -164,7 +175,6 @@ macro_rules! create_instrumentation_visitor {
 
          on_enter!(BinExpr);
          on_enter!(VarDeclarator);
-         on_enter!(VarDecl);
          on_enter!(CondExpr);
          on_enter!(ExprStmt);
          on_enter!(IfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index f22f0a6..38b50c4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -329,33 +329,14 @@ macro_rules! instrumentation_counter_helper {
             let parent = self.nodes.last().unwrap().clone();
             if hoist.0 && parent == crate::Node::VarDeclarator {
                 // TODO: need to polish logic to determine prepending instead of traversing parent node types
-                let nodes_len = self.nodes.len();
-                let parent_index = if nodes_len >= (3 as usize) {
-                    nodes_len - 3
-                } else {
-                    0
-                };
-                let parent = self.nodes.get(parent_index);
-
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            // export declaration has its own counter
-                            crate::Node::ModuleDecl => {}
-                            _ => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                        }
-                    }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
+                // export const has its own counter
+                if !self.nodes.ends_with(&[
+                    crate::Node::ModuleDecl,
+                    crate::Node::ExportDecl,
+                    crate::Node::ConstDecl,
+                    crate::Node::VarDeclarator,
+                ]) {
+                    self.mark_prepend_stmt_counter(&span);
                 }
 
                 return;
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 17cb204..855597c 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -30,6 +30,7 @@ pub enum Node {
     ForStmt,
     IfStmt,
     VarDecl,
+    ConstDecl,
     TryStmt,
     ThrowStmt,
     ReturnStmt,
-- 
2.43.0


From dd53627f20e0dc0edf1d1109ea175592eacc95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 32/36] fix: merge branches without locations

---
 packages/istanbul-oxide/src/file_coverage.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index dac9dd8..8cf45b7 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -20,8 +20,14 @@ fn key_from_loc(range: &Range) -> String {
 // can start with other branch.
 fn key_from_branch(branch: &Branch) -> String {
     let loc = branch.loc.as_ref().map(key_from_loc).unwrap_or_default();
-
-    format!("{}|{}", loc, key_from_loc(&branch.locations[0]))
+    // A switch without cases does not have any location in istanbul.
+    let first = branch
+        .locations
+        .first()
+        .map(key_from_loc)
+        .unwrap_or_default();
+
+    format!("{}|{}", loc, first)
 }
 
 fn merge_properties_hits_vec(
-- 
2.43.0


From e8ee30e9ee7153a6440eafc58c98a2a17983dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 33/36] fix: do not overflow when merging counts

---
 packages/istanbul-oxide/src/file_coverage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 8cf45b7..96ba55a 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -69,7 +69,7 @@ fn merge_properties_hits_vec(
                 }
 
                 for (h, hits) in item_hits.iter().enumerate() {
-                    pair.0[h] += hits;
+                    pair.0[h] = pair.0[h].saturating_add(*hits);
                 }
             })
             .or_insert((item_hits.clone(), item.clone()));
@@ -123,7 +123,7 @@ where
         items
             .entry(item_key)
             .and_modify(|pair| {
-                pair.0 += *item_hits;
+                pair.0 = pair.0.saturating_add(*item_hits);
             })
             .or_insert((*item_hits, item.clone()));
     }
-- 
2.43.0


From dca3ee7f360b0e59eccec88af60e1c20680036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 34/36] fix: lines whose branches have no arms are completely
 covered

---
 packages/istanbul-oxide/src/file_coverage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 96ba55a..b71307c 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -269,7 +269,11 @@ impl FileCoverage {
 
         for (k, data_array) in prefilter_data {
             let covered: Vec<&u32> = data_array.iter().filter(|&x| *x > 0).collect();
-            let coverage = covered.len() as f32 / data_array.len() as f32 * 100 as f32;
+            let coverage = if data_array.is_empty() {
+                100 as f32
+            } else {
+                covered.len() as f32 / data_array.len() as f32 * 100 as f32
+            };
 
             ret.insert(
                 k,
-- 
2.43.0


From 7dd98aeab4411d911df04d23cf11147f0d989b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 35/36] fix: read counts beyond 32 bits

---
 packages/istanbul-oxide/src/file_coverage.rs | 43 +++++++++++++++++++-
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index b71307c..a8cfd5a 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -1,5 +1,5 @@
 use indexmap::IndexMap;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::{
     coverage::Coverage,
@@ -139,6 +139,38 @@ where
     (hits, map)
 }
 
+/// Counters of an instrumented run are not limited to 32 bits.
+fn saturate(hits: u64) -> u32 {
+    hits.min(u32::MAX as u64) as u32
+}
+
+fn saturate_branches(hits: IndexMap<u32, Vec<u64>>) -> BranchHitMap {
+    hits.into_iter()
+        .map(|(idx, hits)| (idx, hits.into_iter().map(saturate).collect()))
+        .collect()
+}
+
+fn deserialize_hits<'de, D: Deserializer<'de>>(deserializer: D) -> Result<LineHitMap, D::Error> {
+    let hits: IndexMap<u32, u64> = Deserialize::deserialize(deserializer)?;
+    Ok(hits
+        .into_iter()
+        .map(|(idx, hits)| (idx, saturate(hits)))
+        .collect())
+}
+
+fn deserialize_branch_hits<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<BranchHitMap, D::Error> {
+    Deserialize::deserialize(deserializer).map(saturate_branches)
+}
+
+fn deserialize_optional_branch_hits<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Option<BranchHitMap>, D::Error> {
+    let hits: Option<IndexMap<u32, Vec<u64>>> = Deserialize::deserialize(deserializer)?;
+    Ok(hits.map(saturate_branches))
+}
+
 /// provides a read-only view of coverage for a single file.
 /// It has the following properties:
 /// `path` - the file path for which coverage is being tracked
@@ -161,10 +193,17 @@ pub struct FileCoverage {
     pub statement_map: StatementMap,
     pub fn_map: FunctionMap,
     pub branch_map: BranchMap,
+    #[serde(deserialize_with = "deserialize_hits")]
     pub s: LineHitMap,
+    #[serde(deserialize_with = "deserialize_hits")]
     pub f: LineHitMap,
+    #[serde(deserialize_with = "deserialize_branch_hits")]
     pub b: BranchHitMap,
-    #[serde(default, skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        skip_serializing_if = "Option::is_none",
+        deserialize_with = "deserialize_optional_branch_hits"
+    )]
     pub b_t: Option<BranchHitMap>,
     #[serde(default, skip_serializing_if = "Option::is_none")]
     pub input_source_map: Option<SourceMap>,
-- 
2.43.0


From cc8e798ab6093a68ee32e5da791db892aa54f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 36/36] fix: accept input source maps with unnamed sources

---
 packages/istanbul-oxide/src/source_map.rs                | 2 +-
 .../src/coverage_template/create_coverage_data_object.rs | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/istanbul-oxide/src/source_map.rs b/packages/istanbul-oxide/src/source_map.rs
index ffbb2eb..a31449c 100644
--- a/packages/istanbul-oxide/src/source_map.rs
+++ b/packages/istanbul-oxide/src/source_map.rs
@@ -8,7 +8,7 @@ pub struct SourceMap {
     pub file: Option<String>,
     #[serde(default, skip_serializing_if = "Option::is_none")]
     pub source_root: Option<String>,
-    pub sources: Vec<String>,
+    pub sources: Vec<Option<String>>,
     #[serde(default, skip_serializing_if = "Option::is_none")]
     pub sources_content: Option<Vec<Option<String>>>,
     pub names: Vec<String>,
diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
index 0857cca..d9713f4 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
@@ -345,10 +345,11 @@ pub fn create_coverage_data_object(coverage_data: &FileCoverage) -> (String, Exp
                     .map(|v| {
                         Some(ExprOrSpread {
                             spread: None,
-                            expr: Box::new(Expr::Lit(Lit::Str(Str {
-                                value: v.clone().into(),
-                                ..Str::dummy()
-                            }))),
+                            expr: Box::new(Expr::Lit(if let Some(v) = v {
+                                Lit::Str(Str::from(v.as_ref()))
+                            } else {
+                                Lit::Null(Null::dummy())
+                            })),
                         })
                     })
                     .collect(),
-- 
2.43.0

