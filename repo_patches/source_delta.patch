From 6dbd13c097e16455022a2fda9b642a46fbef6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:50 +0000
Subject: [PATCH 01/20] fix: formatter keeps the type annotation of constants

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From b2dc24f33f7d01c99fd6799510779e2f4e5486e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:12 +0000
Subject: [PATCH 02/20] fix: formatter keeps the trailing comma of one-element
 tuples

---
 crates/compiler/formatter/src/rules/expressions.rs |  2 +-
 crates/compiler/formatter/src/rules/types.rs       |  2 +-
 crates/compiler/formatter/src/utils.rs             | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..6572312 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -15,6 +15,17 @@ pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
 }
 
+/// Helper function to print a tuple: a single element keeps the trailing comma
+/// which distinguishes it from a parenthesized element
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        items.push(Doc::text(","));
+        parens(Doc::concat(items))
+    } else {
+        parens(comma_separated(items))
+    }
+}
+
 /// Helper function to wrap in braces
 pub fn braces(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("{"), inner, Doc::text("}")])
-- 
2.43.0


From 405a98847f879cf58e13faaad6c3be18a060c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 03/20] fix: structural checks descend into for loops

---
 .../src/validation/structural_validator.rs     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..4b3b51d 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -146,6 +146,13 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for stmt in [init, step, body] {
+                        self.check_patterns_in_statements(&[(**stmt).clone()], file_path, sink);
+                    }
+                }
                 _ => {}
             }
         }
@@ -203,6 +210,17 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_type_cohesion_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for stmt in [init, step, body] {
+                        self.check_type_cohesion_in_statements(
+                            &[(**stmt).clone()],
+                            file_path,
+                            sink,
+                        );
+                    }
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 5913257c54d12588e4587fcf5f09f12a7415ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 04/20] fix: a loop left by break does not return on all paths

---
 .../semantic/src/validation/control_flow_validator.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..d24b729 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -294,9 +294,9 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
-                // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
+                // Loop statements can provide returns if they contain return statements,
+                // unless a `break` leaves the loop without returning
+                !Self::contains_break(body) && Self::statement_provides_return_value(body)
             }
             Statement::While { .. } => {
                 // While loops might not execute, so they can't guarantee a return
@@ -331,8 +331,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
+                // Check if the loop body has a hard return that no `break` can skip
+                !Self::contains_break(body) && Self::statement_guarantees_hard_return(body)
             }
             Statement::While { .. } | Statement::For { .. } => {
                 // While and for loops might not execute, so they don't guarantee hard returns
-- 
2.43.0


From f24f877b14ddaa23c52a33fd7b67aeedf95c31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 05/20] fix: types named in casts and const annotations are
 resolved

---
 crates/compiler/semantic/src/semantic_index.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..bc5b233 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1327,12 +1327,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // Visit count expression normally
                 self.visit_expr(count);
             }
-            Expression::Cast {
-                expr,
-                target_type: _,
-            } => {
-                // Visit the expression being cast
+            Expression::Cast { expr, target_type } => {
+                // Visit the expression being cast and the type it is cast to
                 self.visit_expr(expr);
+                self.visit_type_expr(target_type);
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
@@ -1564,6 +1562,7 @@ where
 
                 // Process the value expression with optional type annotation
                 if let Some(ref ty) = const_def.ty {
+                    self.visit_type_expr(ty);
                     self.with_expected_type(Some(ty.clone()), |builder| {
                         builder.visit_expr(&const_def.value);
                     });
@@ -1682,6 +1681,7 @@ where
 
         // Visit the value expression with optional type annotation
         if let Some(ref ty) = const_def_inner.ty {
+            self.visit_type_expr(ty);
             self.with_expected_type(Some(ty.clone()), |builder| {
                 builder.visit_expr(&const_def_inner.value);
             });
-- 
2.43.0


From 25d1ccbbd4f97f2024ec22695bad69cd04bc4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 06/20] fix: check module-level constants against their type
 annotation

---
 .../semantic/src/validation/type_validator.rs | 109 +++++++++++-------
 1 file changed, 69 insertions(+), 40 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..8495bee 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,8 +16,8 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
-    UnaryOp, parse_file,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem,
+    TypeExpr, UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
 
@@ -81,6 +81,21 @@ impl Validator for TypeValidator {
             }
         }
 
+        // Check the type annotations of module-level constants
+        for item in parsed_module.items() {
+            if let TopLevelItem::Const(const_spanned) = item {
+                self.check_const_type(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_spanned.value(),
+                    const_spanned.span(),
+                    sink,
+                );
+            }
+        }
+
         for (_def_idx, definition) in index.all_definitions() {
             if let DefinitionKind::Function(_) = &definition.kind {
                 self.analyze_function_statement_types(
@@ -1343,6 +1358,57 @@ impl TypeValidator {
         }
     }
 
+    /// Check a constant's value against its type annotation
+    #[allow(clippy::too_many_arguments)]
+    fn check_const_type(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        span: SimpleSpan<usize>,
+        sink: &dyn DiagnosticSink,
+    ) {
+        // Validate that the const value type matches the declared type
+        if let Some(ref type_ast) = const_def.ty {
+            if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) {
+                // Get the declared type
+                let declared_type = resolve_ast_type(
+                    db,
+                    crate_id,
+                    file,
+                    type_ast.clone(),
+                    index.scope_for_span(span).unwrap(),
+                );
+
+                // Get the actual value type
+                let value_type = expression_semantic_type(
+                    db,
+                    crate_id,
+                    file,
+                    value_expr_id,
+                    Some(declared_type),
+                );
+
+                // Check compatibility
+                if !are_types_compatible(db, value_type, declared_type) {
+                    sink.push(
+                        Diagnostic::error(
+                            DiagnosticCode::TypeMismatch,
+                            format!(
+                                "Type mismatch in const declaration: expected `{}`, got `{}`",
+                                declared_type.data(db).display_name(db),
+                                value_type.data(db).display_name(db)
+                            ),
+                        )
+                        .with_location(file.file_path(db).to_string(), const_def.value.span()),
+                    );
+                }
+            }
+        }
+    }
+
     /// Check types for a single statement
     fn check_statement_type(
         &self,
@@ -1414,44 +1480,7 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
-                }
+                self.check_const_type(db, crate_id, file, index, const_def, stmt.span(), sink);
             }
             Statement::Loop { body } => {
                 self.check_statement_type(db, crate_id, file, index, function_def, body, sink);
-- 
2.43.0


From 8584679b5adc5be6641c97243b980f8c7978a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 07/20] fix: report struct literal fields given twice

---
 .../semantic/src/validation/type_validator.rs  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 8495bee..ce17c58 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1091,6 +1091,24 @@ impl TypeValidator {
             .map(|(field_name, _)| field_name.value().clone())
             .collect();
 
+        // Check that no field is given twice
+        let mut seen_fields = HashSet::new();
+        for (field_name, _) in fields {
+            if !seen_fields.insert(field_name.value()) {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::InvalidStructLiteral,
+                        format!(
+                            "Field `{}` specified more than once in struct literal for `{}`",
+                            field_name.value(),
+                            struct_type.name(db)
+                        ),
+                    )
+                    .with_location(file.file_path(db).to_string(), field_name.span()),
+                );
+            }
+        }
+
         // Check for missing fields
         for (field_name, _field_type) in &struct_fields {
             if !provided_fields.contains(field_name) {
-- 
2.43.0


From 89cebcee3e3f71a261df5b7b679441778f904144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 08/20] fix: delta diagnostics forget removed modules

---
 crates/compiler/semantic/src/delta_diagnostics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..7dc4cae 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -71,6 +71,12 @@ impl DeltaDiagnosticsTracker {
         let modules = crate_id.modules(db);
         let mut total_diagnostics = DiagnosticCollection::default();
 
+        // Forget the modules that are no longer part of the project
+        self.module_revisions
+            .retain(|name, _| modules.contains_key(name));
+        self.cached_diagnostics
+            .retain(|name, _| modules.contains_key(name));
+
         for (module_name, _file) in modules.iter() {
             let module_changed = self.has_module_changed(db, crate_id, module_name.clone());
 
-- 
2.43.0


From 19fae5967eecc0220157bafea11b711bfac2aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:09 +0000
Subject: [PATCH 09/20] fix: module order of diagnostics does not depend on
 hashing

---
 crates/compiler/semantic/src/db.rs                | 4 +++-
 crates/compiler/semantic/src/delta_diagnostics.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..303b856 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -334,7 +334,9 @@ fn topological_sort(graph: &HashMap<String, Vec<String>>) -> Vec<String> {
         topo.push(node.clone());
     }
 
-    for node in graph.keys() {
+    let mut sorted_keys = graph.keys().collect::<Vec<_>>();
+    sorted_keys.sort();
+    for node in sorted_keys {
         if !visited.contains_key(node) {
             dfs_topo(graph, &mut visited, &mut topo, node);
         }
diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 7dc4cae..0828d2b 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -77,7 +77,9 @@ impl DeltaDiagnosticsTracker {
         self.cached_diagnostics
             .retain(|name, _| modules.contains_key(name));
 
-        for (module_name, _file) in modules.iter() {
+        let mut module_names = modules.keys().collect::<Vec<_>>();
+        module_names.sort();
+        for module_name in module_names {
             let module_changed = self.has_module_changed(db, crate_id, module_name.clone());
 
             if module_changed {
@@ -154,7 +156,9 @@ impl DeltaDiagnosticsTracker {
     fn get_cached_project_diagnostics(&self) -> DiagnosticCollection {
         let mut total_diagnostics = DiagnosticCollection::default();
 
-        for cached_diag in self.cached_diagnostics.values() {
+        let mut cached = self.cached_diagnostics.iter().collect::<Vec<_>>();
+        cached.sort_by_key(|(module_name, _)| *module_name);
+        for (_, cached_diag) in cached {
             total_diagnostics.extend(cached_diag.all().iter().cloned());
         }
 
-- 
2.43.0


From 1489e6c1584528303e4ce925fbd58e4bd638b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 10/20] fix: a project contains the files of its source
 directory

---
 crates/compiler/cairo-m-project/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..ad1a841 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -28,7 +28,7 @@ impl Project {
 
     /// Check if a path belongs to this project
     pub fn contains_path(&self, path: &Path) -> bool {
-        path.starts_with(&self.root_directory)
+        path.starts_with(self.source_directory())
     }
 
     /// Get all source files in the project
-- 
2.43.0


From 2a6552c53e1d625ac254112ebdbeccc292c84162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 11/20] fix: per-module diagnostics are reported once

---
 crates/compiler/semantic/src/db.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 303b856..2432606 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -491,9 +491,8 @@ pub fn module_semantic_diagnostics(
         };
         let registry = create_default_registry();
 
-        let mut validate_diags = registry.validate_all(db, crate_id, *file, &index);
-        validate_diags.extend(index.semantic_syntax_errors);
-        validate_diags
+        // `validate_all` already includes the errors found while building the index
+        registry.validate_all(db, crate_id, *file, &index)
     } else {
         DiagnosticCollection::default()
     }
@@ -507,6 +506,10 @@ pub fn module_all_diagnostics(
     module_name: String,
 ) -> DiagnosticCollection {
     let parse_diag = module_parse_diagnostics(db, crate_id, module_name.clone());
+    if !parse_diag.is_empty() {
+        // The semantic diagnostics of a module which does not parse are its parse errors
+        return parse_diag;
+    }
     let semantic_diag = module_semantic_diagnostics(db, crate_id, module_name);
 
     let mut collection = DiagnosticCollection::default();
-- 
2.43.0


From 916f8576fa0517da44f161dd26b1770800b2eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 12/20] fix: 0 - x and 1 / x are not simplified to x

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..0f38287 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // 0 - x and 1 / x are not x: the identity is on the right only
+            let right_only = matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::Div | BinaryOp::U32Sub | BinaryOp::U32Div
+            );
+            if !right_only && left == Value::Literal(identity) {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From efd24de3fa8e8b867fe561d111855f438de78811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 13/20] fix: nested array types are reported in struct fields,
 constants and nested types

---
 .../semantic/src/validation/type_validator.rs | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index ce17c58..de13a19 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -67,17 +67,27 @@ impl Validator for TypeValidator {
             self.check_expression_types(db, crate_id, file, index, expr_id, expr_info, sink);
         }
 
-        // Check all function definitions for nested arrays in their signatures
+        // Check the types written in function signatures and struct fields for
+        // nested arrays
         for item in parsed_module.items() {
-            if let TopLevelItem::Function(func_spanned) = item {
-                let func_def = func_spanned.value();
-                // Check return type for nested arrays
-                Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
-
-                // Check parameter types for nested arrays
-                for param in &func_def.params {
-                    Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+            match item {
+                TopLevelItem::Function(func_spanned) => {
+                    let func_def = func_spanned.value();
+                    // Check return type for nested arrays
+                    Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
+
+                    // Check parameter types for nested arrays
+                    for param in &func_def.params {
+                        Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+                    }
+                }
+                TopLevelItem::Struct(struct_spanned) => {
+                    for (_, field_type) in &struct_spanned.value().fields {
+                        Self::check_for_nested_arrays(db, file, field_type, sink);
+                    }
                 }
+                // The annotations of constants are checked with their values
+                TopLevelItem::Const(_) | TopLevelItem::Use(_) => {}
             }
         }
 
@@ -223,6 +233,8 @@ impl TypeValidator {
                         )
                         .with_location(file.file_path(db).to_string(), type_expr.span()),
                     );
+                } else {
+                    Self::check_for_nested_arrays(db, file, element_type, sink);
                 }
             }
             TypeExpr::Tuple(elements) => {
@@ -231,7 +243,10 @@ impl TypeValidator {
                     Self::check_for_nested_arrays(db, file, elem, sink);
                 }
             }
-            _ => {}
+            TypeExpr::Pointer(pointee) => {
+                Self::check_for_nested_arrays(db, file, pointee, sink);
+            }
+            TypeExpr::Named(_) => {}
         }
     }
 
@@ -1390,6 +1405,7 @@ impl TypeValidator {
     ) {
         // Validate that the const value type matches the declared type
         if let Some(ref type_ast) = const_def.ty {
+            Self::check_for_nested_arrays(db, file, type_ast, sink);
             if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) {
                 // Get the declared type
                 let declared_type = resolve_ast_type(
-- 
2.43.0


From fc097e63bc9973aa0240e0970c391961091b0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:58 +0000
Subject: [PATCH 14/20] fix: a wrong argument to an imported function does not
 crash the analysis

---
 .../semantic/src/validation/type_validator.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index de13a19..37fdf90 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -624,15 +624,18 @@ impl TypeValidator {
                         );
 
                         if !are_types_compatible(db, arg_type, *param_type) {
-                            // Find the parameter's AST to get its span
+                            // Find the parameter's AST to get its span. The function may be
+                            // imported: this file's index only knows the ones it defines.
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
-                                    func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                            let param_type_span = if func_def_id.file(db) == file
+                                && let Some(func_def) =
+                                    index.definition(func_def_id.id_in_file(db))
+                                && let DefinitionKind::Function(func_ref) = &func_def.kind
+                            {
+                                func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
+                            } else {
+                                None
+                            };
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From ef437963ee3ed27fb3837901fc5dd39f6a8b4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 15/20] fix: a const is not visible in its own initialiser

---
 .../compiler/semantic/src/semantic_index.rs   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index bc5b233..ed39556 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -441,23 +441,22 @@ impl SemanticIndex {
                             continue;
                         }
 
-                        // Skip if usage falls inside this let initializer
-                        let skip =
-                            if let crate::definition::DefinitionKind::Let(let_ref) = &def.kind {
-                                if let Some(init_expr_id) = let_ref.value_expr_id {
-                                    if let Some(init_expr) = self.expression(init_expr_id) {
-                                        let init_span = init_expr.ast_span;
-                                        position.start >= init_span.start
-                                            && position.end <= init_span.end
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
+                        // Skip if usage falls inside this let or const initializer
+                        let init_expr_id = match &def.kind {
+                            crate::definition::DefinitionKind::Let(let_ref) => {
+                                let_ref.value_expr_id
+                            }
+                            crate::definition::DefinitionKind::Const(const_ref) => {
+                                const_ref.value_expr_id
+                            }
+                            _ => None,
+                        };
+                        let skip = init_expr_id
+                            .and_then(|init_expr_id| self.expression(init_expr_id))
+                            .is_some_and(|init_expr| {
+                                let init_span = init_expr.ast_span;
+                                position.start >= init_span.start && position.end <= init_span.end
+                            });
                         if skip {
                             continue;
                         }
-- 
2.43.0


From 51f2f67ea5db110aadc8f978bd2629d625ed4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:00 +0000
Subject: [PATCH 16/20] fix: a type name that names a function is not followed
 into its signature

---
 crates/compiler/semantic/src/type_resolution.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..1cadd80 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -58,6 +58,16 @@ pub fn resolve_ast_type<'db>(
                     // Try to resolve as a struct type using scope-chain helper (supports forward refs)
                     semantic_index
                         .latest_definition_index_by_name_in_chain(context_scope_id, name_str)
+                        // Only structs, defined here or imported, are types. Asking for the type of
+                        // anything else could lead back to the type being resolved.
+                        .filter(|&def_idx| {
+                            semantic_index.definition(def_idx).is_some_and(|def| {
+                                matches!(
+                                    def.kind,
+                                    DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                                )
+                            })
+                        })
                         .map(|def_idx| {
                             let def_id = DefinitionId::new(db, file, def_idx);
                             let def_type = definition_semantic_type(db, crate_id, def_id);
-- 
2.43.0


From d36847bd3b34acdcea7adec43ebbc52c258a72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:45 +0000
Subject: [PATCH 17/20] fix: a struct named in a struct literal counts as used

A struct literal was linked only to a definition in its own scope, so an
import used in a function body was reported as unused.
---
 crates/compiler/semantic/src/semantic_index.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index ed39556..fea3bd8 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1126,13 +1126,15 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 };
                 let usage_index = self.index.add_type_usage(type_usage);
 
-                // Attempt to link this type usage to its locally visible definition (may be a `use`).
-                // Use non-position-aware resolution here to support forward-declared top-level items
-                // until phase 1 (forward declarations) is fully in place.
+                // Link this type usage to its visible definition (may be a `use`), in this scope or
+                // an enclosing one. Use non-position-aware resolution here to support
+                // forward-declared top-level items until phase 1 (forward declarations) is fully
+                // in place.
                 if let Some(def_idx) = self
                     .index
-                    .latest_definition_index_by_name(self.current_scope(), name.value())
+                    .latest_definition_index_by_name_in_chain(self.current_scope(), name.value())
                 {
+                    self.index.mark_definition_used(def_idx);
                     self.index
                         .add_type_usage_to_definition(usage_index, def_idx);
                 }
-- 
2.43.0


From 8d30b357ba95a225955284d6d31c6712cd5bf1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:13 +0000
Subject: [PATCH 18/20] fix: a returned expression takes the return type of its
 own function

The search for the containing function matched the first function of the
module, whose return type then became the context of every returned
expression.
---
 .../compiler/semantic/src/type_resolution.rs  | 67 +++++--------------
 1 file changed, 15 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1cadd80..9c7f860 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -346,58 +346,21 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // The return type of the containing function is the context of a return
+                // expression: the function whose definition encloses it
+                let span = expr_info.ast_span;
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= span.start
+                            && span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0


From 1098628e089b1ef07c5db35cdaf2862487d2c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 19/20] fix: an argument of an imported function takes the
 parameter's type

The context of an argument was looked up for functions of the same file
only, so a literal passed to an imported function was typed as felt.
---
 crates/compiler/semantic/src/type_resolution.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 9c7f860..31375a2 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -333,12 +333,14 @@ pub fn expression_semantic_type<'db>(
                             .definition_for_identifier_expr(*callee)
                             .and_then(|(def_idx, _)| {
                                 let def_id = DefinitionId::new(db, file, def_idx);
-                                function_semantic_signature(db, crate_id, def_id).and_then(
-                                    |signature_id| {
+                                // The callee may be imported: take the function it stands for
+                                match definition_semantic_type(db, crate_id, def_id).data(db) {
+                                    TypeData::Function(signature_id) => {
                                         let params = signature_id.params(db);
                                         params.get(*index).map(|(_, param_type)| *param_type)
-                                    },
-                                )
+                                    }
+                                    _ => None,
+                                }
                             }),
                         _ => None,
                     }
-- 
2.43.0


From 33d2a7a9e958d013db8823cd633964f01a453f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:15 +0000
Subject: [PATCH 20/20] fix: the number of arguments of assert is checked

assert() and assert(a, b) passed analysis; the first then failed in
lowering and the second silently dropped its second argument.
---
 .../semantic/src/validation/type_validator.rs    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 37fdf90..9a6dfa3 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -187,10 +187,24 @@ impl TypeValidator {
         crate_id: Crate,
         file: File,
         index: &SemanticIndex,
-        _callee: &Spanned<Expression>,
+        callee: &Spanned<Expression>,
         args: &[Spanned<Expression>],
         sink: &dyn DiagnosticSink,
     ) {
+        // Check arity: the condition is the only argument
+        if args.len() != 1 {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::InvalidFunctionCall,
+                    format!(
+                        "Function expects 1 argument(s), but {} were provided",
+                        args.len()
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), callee.span()),
+            );
+        }
+
         // Only validate that the inner expression (if provided) evaluates to a boolean.
         // Delegate all other typing rules to the general validators.
         if let Some(cond) = args.first() {
-- 
2.43.0

