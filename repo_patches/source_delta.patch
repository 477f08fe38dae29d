From 4ac5cdf79f58ec4a7a262e4960562aca0503cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 01/19] verif: expose the lexer's tokenize under --cfg verif

---
 crates/syntax/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index aff29dc..d3f901e 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -38,6 +38,12 @@ pub use rowan::{
 use std::ops::Range;
 use std::sync::Arc;
 
+/// Items the solver-based checks drive directly (built with `--cfg verif` only).
+#[cfg(verif)]
+pub mod verif {
+    pub use crate::parse::lexer::{RawToken, tokenize};
+}
+
 /// `Parse` is the result of the parsing: a syntax tree and a collection of
 /// errors.
 ///
-- 
2.43.0


From 8b5e24f653954e30d4d32d4a3c81aea3d66713c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 02/19] fix: count bytes, not characters, in the length of a
 block comment

---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 4117c94d760e979796768d984886e4d4d2fe23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 03/19] verif: let a token sequence be handed to the parser
 under --cfg verif

---
 crates/syntax/src/lib.rs         |  2 +-
 crates/syntax/src/parse/lexer.rs | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index d3f901e..d4e14ed 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -41,7 +41,7 @@ use std::sync::Arc;
 /// Items the solver-based checks drive directly (built with `--cfg verif` only).
 #[cfg(verif)]
 pub mod verif {
-    pub use crate::parse::lexer::{RawToken, tokenize};
+    pub use crate::parse::lexer::{RawToken, given_tokens, tokenize};
 }
 
 /// `Parse` is the result of the parsing: a syntax tree and a collection of
diff --git a/crates/syntax/src/parse/lexer.rs b/crates/syntax/src/parse/lexer.rs
index f39d4a9..8e6b65d 100644
--- a/crates/syntax/src/parse/lexer.rs
+++ b/crates/syntax/src/parse/lexer.rs
@@ -10,6 +10,26 @@ use crate::{SyntaxError, SyntaxKind, T, TextRange, TextSize};
 
 mod move_model;
 
+/// Lets the solver-based checks hand the parser a token sequence (built with `--cfg verif` only).
+#[cfg(verif)]
+pub mod given_tokens {
+    use super::RawToken;
+    use std::cell::RefCell;
+
+    thread_local! {
+        static TOKENS: RefCell<Option<Vec<RawToken>>> = const { RefCell::new(None) };
+    }
+
+    /// The next call to `tokenize` on a non-empty text returns `tokens`.
+    pub fn set(tokens: Vec<RawToken>) {
+        TOKENS.with(|it| *it.borrow_mut() = Some(tokens));
+    }
+
+    pub(super) fn take() -> Option<Vec<RawToken>> {
+        TOKENS.with(|it| it.borrow_mut().take())
+    }
+}
+
 /// A token of Rust source.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct RawToken {
@@ -28,6 +48,11 @@ pub fn tokenize(text: &str) -> (Vec<RawToken>, Vec<SyntaxError>) {
         return Default::default();
     }
 
+    #[cfg(verif)]
+    if let Some(tokens) = given_tokens::take() {
+        return (tokens, vec![]);
+    }
+
     let mut tokens = Vec::new();
     let mut errors = Vec::new();
 
-- 
2.43.0


From 8fefa595bf3b0ca1c49a2952689404a6813b32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 04/19] fix: report an error for a module address that is not
 one, do not panic

---
 crates/syntax/src/parse/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..7813209 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -86,7 +86,7 @@ pub(crate) fn module(p: &mut Parser, m: Marker) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        p.expect(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 
@@ -148,7 +148,7 @@ pub(crate) fn module_name(p: &mut Parser) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        p.expect(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 }
-- 
2.43.0


From f698762f99dddde2e983465c11e0b98f3b0ec13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 05/19] fix: do not take a block's closing brace for an error
 after a bad character

---
 crates/syntax/src/parse/grammar/expressions/blocks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/syntax/src/parse/grammar/expressions/blocks.rs b/crates/syntax/src/parse/grammar/expressions/blocks.rs
index f2adc86..33df2fc 100644
--- a/crates/syntax/src/parse/grammar/expressions/blocks.rs
+++ b/crates/syntax/src/parse/grammar/expressions/blocks.rs
@@ -166,6 +166,8 @@ pub(crate) fn stmt(p: &mut Parser) {
             }
             m.complete(p, EXPR_STMT);
         }
+        // a bad character was consumed and reported, the brace closes the block
+        None if p.at(T!['}']) => (),
         None => {
             p.error_and_bump(&format!("unexpected token {:?}", p.current()));
         }
-- 
2.43.0


From 7c6bb7b886376309459378101a740aebb1f3c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 06/19] fix: report a missing argument list of a behavior
 predicate or lemma, do not panic

---
 crates/syntax/src/parse/grammar/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..df2dddd 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -301,7 +301,10 @@ fn index_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
 }
 
 pub(crate) fn value_arg_list(p: &mut Parser) {
-    assert!(p.at(T!['(']));
+    if !p.at(T!['(']) {
+        p.error("expected argument list");
+        return;
+    }
     let m = p.start();
     p.bump(T!['(']);
     delimited_with_recovery(
-- 
2.43.0


From a918a622cfefdff1b7e0e15188b319b8da410ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 07/19] fix: renaming the variable of a shorthand struct
 pattern keeps the field's name

---
 crates/ide-db/src/rename.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 6dc0581..ea56b2e 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -186,8 +186,15 @@ fn source_edit_from_name_ref(
 fn source_edit_from_def(named_element: ast::NamedElement, new_name: &str) -> Result<TextEdit> {
     let mut edit = TextEdit::builder();
 
-    let old_name_range = named_element.name().unwrap().syntax().text_range();
-    edit.replace(old_name_range, new_name.to_string());
+    let old_name = named_element.name().unwrap();
+    let old_name_range = old_name.syntax().text_range();
+    if ast::StructPatField::for_field_name(&old_name).is_some_and(|it| it.is_shorthand()) {
+        // Foo { field } -> Foo { field: new_name }
+        //            ^ insert `: new_name`
+        edit.insert(old_name_range.end(), format!(": {new_name}"));
+    } else {
+        edit.replace(old_name_range, new_name.to_string());
+    }
     Ok(edit.finish())
 }
 
-- 
2.43.0


From 8c988d39e06d580d910e0e7a406adb512b48bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 08/19] fix: renaming to a label's name is refused

---
 crates/ide/src/rename.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 3d5aac9..99fd138 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -40,7 +40,10 @@ pub(crate) fn rename(
     let source_file = sema.parse(position.file_id);
     let syntax = source_file.syntax();
 
-    let _ = IdentifierKind::classify(new_name)?;
+    // labels cannot be renamed, and nothing else can be named like one
+    if IdentifierKind::classify(new_name)? == IdentifierKind::Label {
+        bail!("Invalid name `{}`: not an identifier", new_name);
+    }
 
     let named_element = find_definition(&sema, syntax, position)?;
     let change = rename::rename_named_element(&sema, named_element, new_name)?;
-- 
2.43.0


From 1d6c97986f45dd67b0902f8994f25e1c139d773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 09/19] fix: references to a for loop's variable include those
 in its spec block

---
 crates/ide-db/src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 18bec57..d051fd7 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -153,9 +153,9 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
             Some(SearchScope::from_file_range(fun.syntax().file_range()))
         }
         IdentPatOwner::ForCondition(for_condition) => {
-            let for_body_expr = for_condition.for_expr().loop_body_expr()?;
+            // also used in the spec block of the condition
             Some(SearchScope::from_file_range(
-                for_body_expr.in_file(file_id).file_range(),
+                for_condition.for_expr().in_file(file_id).file_range(),
             ))
         }
         IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(
-- 
2.43.0


From e40914b27f705c4df843bbc4a6f6a92817f5656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 10/19] fix: preparing a rename gives the range of the name at
 the cursor, not of its declaration

---
 crates/ide/src/rename.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 99fd138..55226c6 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -23,12 +23,16 @@ pub(crate) fn prepare_rename(db: &RootDatabase, position: FilePosition) -> Renam
     let syntax = source_file.syntax();
 
     let named_element = find_definition(&sema, syntax, position)?;
-    let name = named_element
-        .value
-        .name()
+    if named_element.value.name().is_none() {
+        bail!("No references found at position");
+    }
+
+    // what is edited is the name at the position, the definition can be anywhere (even in another file)
+    let name_like = sema
+        .find_namelike_at_offset(syntax, position.offset)
         .ok_or_else(|| format_err!("No references found at position"))?;
 
-    Ok(RangeInfo::new(name.syntax().text_range(), ()))
+    Ok(RangeInfo::new(name_like.syntax().text_range(), ()))
 }
 
 pub(crate) fn rename(
-- 
2.43.0


From 76fcbfd6efcc4a2834e4558edfa2c0d1def7efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 11/19] fix: a type parameter is found although the module has
 a tuple struct or enum of its name

---
 crates/lang/src/nameres/name_resolution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 1915c1b..d0367bf 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -85,7 +85,12 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
 
-            let ns_pair = (entry_ns, scope_entry.name.as_str());
+            // type parameters, structs (with named fields or not) and enums shadow each other
+            let shadowing_ns = match entry_ns {
+                Ns::TUPLE_STRUCT | Ns::ENUM => Ns::TYPE,
+                ns => ns,
+            };
+            let ns_pair = (shadowing_ns, scope_entry.name.as_str());
             if prev_visited_names.contains(&ns_pair) {
                 continue;
             }
-- 
2.43.0


From 449e0f06eb59974c655eac0e4d3efde533bcd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 12/19] fix: a lambda parameter without a name counts when its
 parameters' types are matched

---
 crates/lang/src/types/inference/ast_walker/lambda_expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
index 9c0c2cb..66fd995 100644
--- a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
+++ b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
@@ -17,13 +17,16 @@ use syntax::{IntoNodeOrToken, ast};
 impl TypeAstWalker<'_, '_> {
     pub(super) fn infer_lambda_expr(&mut self, lambda_expr: &ast::LambdaExpr, expected: Expected) -> Ty {
         let mut param_tys = vec![];
-        for (lambda_param, ident_pat) in lambda_expr.params_with_ident_pats() {
+        for lambda_param in lambda_expr.params() {
             let file_id = self.ctx.file_id;
             let param_ty = match lambda_param.type_() {
                 Some(type_) => ty_db::lower_type_for_ctx(self.ctx, type_.in_file(file_id)),
                 None => Ty::new_ty_var(&self.ctx.ty_var_index),
             };
-            self.ctx.pat_types.insert(ident_pat.into(), param_ty.clone());
+            // `_` has no name to give the type to, but is a parameter all the same
+            if let Some(ident_pat) = lambda_param.ident_pat() {
+                self.ctx.pat_types.insert(ident_pat.into(), param_ty.clone());
+            }
             param_tys.push(param_ty);
         }
 
-- 
2.43.0


From f723235d73d069576e7a691d5406ff2b3149a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 13/19] fix: report unused imports of a module's specs in their
 own file, and those of scripts

---
 crates/ide-diagnostics/src/handlers/unused_import.rs |  5 +++--
 crates/ide-diagnostics/src/lib.rs                    | 11 ++---------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index e74ef6b..5155920 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -36,8 +36,9 @@ pub(crate) fn find_unused_imports(
 
     let db = ctx.sema.db;
 
+    // those of the related module specs are reported with them, which can be in another file
     let unused_use_items_in_scope = find_unused_use_items(db, &use_stmts_owner).unwrap_or_default();
-    for use_stmt in hir_db::combined_use_stmts(db, &use_stmts_owner) {
+    for use_stmt in use_stmts_owner.as_ref().flat_map(|it| it.use_stmts()) {
         let stmt_use_items = unused_use_items_in_scope
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
@@ -48,7 +49,7 @@ pub(crate) fn find_unused_imports(
 
     let unused_scoped_use_items =
         find_use_items_with_redundant_main_scope(db, &use_stmts_owner).unwrap_or_default();
-    for use_stmt in hir_db::combined_use_stmts(db, &use_stmts_owner) {
+    for use_stmt in use_stmts_owner.as_ref().flat_map(|it| it.use_stmts()) {
         let unused_use_items_for_current_stmt = unused_scoped_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..a4ece17 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -109,18 +109,11 @@ pub fn semantic_diagnostics(
                 method_or_path.in_file(file_id),
             );
         }
-        if let Some(module) = node.clone().cast::<ast::Module>() {
+        if let Some(use_stmts_owner) = node.clone().cast::<ast::AnyUseStmtsOwner>() {
             handlers::unused_import::find_unused_imports(
                 &mut acc,
                 &ctx,
-                module.in_file(file_id).map_into(),
-            );
-        }
-        if let Some(block_expr) = node.clone().cast::<ast::BlockExpr>() {
-            handlers::unused_import::find_unused_imports(
-                &mut acc,
-                &ctx,
-                block_expr.in_file(file_id).map_into(),
+                use_stmts_owner.in_file(file_id),
             );
         }
         match_ast! {
-- 
2.43.0


From 61215d9b9863c7f5c551044bef27b158cedaf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 14/19] fix: the underscore of an unused shorthand pattern
 keeps the field's name

---
 .../ide-diagnostics/src/handlers/unused_variables.rs | 12 ++++++++++--
 crates/syntax/src/ast/syntax_factory/exprs.rs        |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index a1b89c6..c586338 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -102,7 +102,8 @@ fn fixes(
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(ident_pat.as_ref())?;
-    let new_ident_name = format!("_{}", ident_pat.value.name()?.as_string());
+    let ident_name = ident_pat.value.name()?.as_string();
+    let new_ident_name = format!("_{ident_name}");
     assists.add_fix(
         "rename-with-underscore-prefix",
         format!("Rename to {new_ident_name}"),
@@ -110,7 +111,14 @@ fn fixes(
         |editor| {
             let make = SyntaxFactory::new();
             let new_ident_pat = make.ident_pat(&new_ident_name);
-            editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+            match ident_pat.value.syntax().parent_of_type::<ast::StructPatField>() {
+                // `S { x }` to `S { x: _x }`, the field keeps its name
+                Some(pat_field) if pat_field.is_shorthand() => {
+                    let new_pat_field = make.pat_field(&ident_name, new_ident_pat);
+                    editor.replace(pat_field.syntax(), new_pat_field.syntax());
+                }
+                _ => editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax()),
+            }
             editor.add_mappings(make.finish_with_mappings());
         },
     );
diff --git a/crates/syntax/src/ast/syntax_factory/exprs.rs b/crates/syntax/src/ast/syntax_factory/exprs.rs
index 34cb7b4..704ddd7 100644
--- a/crates/syntax/src/ast/syntax_factory/exprs.rs
+++ b/crates/syntax/src/ast/syntax_factory/exprs.rs
@@ -157,6 +157,14 @@ impl SyntaxFactory {
         new_lit_field
     }
 
+    pub fn pat_field(&self, field_name: &str, ident_pat: ast::IdentPat) -> ast::StructPatField {
+        ast_from_text::<ast::StructPatField>(&format!(
+            "module 0x1::m {{ fun main() {{ let S {{ {field_name}: {} }} }}",
+            ident_pat.syntax.text()
+        ))
+        .clone_for_update()
+    }
+
     pub fn pat_field_shorthand(&self, ident_pat: ast::IdentPat) -> ast::StructPatField {
         let new_pat_field = ast_from_text::<ast::StructPatField>(&format!(
             "module 0x1::m {{ fun main() {{ let S {{ {} }} }}",
-- 
2.43.0


From 1437ffc6d2b3c4752a8f3f31a6765277999877cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 15/19] fix: imports used through enum variants, friends and
 attributes are used

---
 .../src/handlers/unused_import/use_items.rs   | 91 ++++++++++++-------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index b956624..0f1abb0 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -5,6 +5,7 @@ use lang::loc::SyntaxLocFileExt;
 use lang::nameres::use_speck_entries::{UseItem, UseItemType};
 use std::collections::HashSet;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
+use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::files::InFile;
 use syntax::{AstNode, ast};
 
@@ -75,17 +76,40 @@ fn find_use_items_hit<'a>(
     use_items: impl Iterator<Item = &'a UseItem>,
     path_type: &'a BasePathType,
 ) -> Vec<&'a UseItem> {
-    match path_type {
-        BasePathType::Item { item_name } => use_items
-            .filter(|it| it.type_ == UseItemType::Item && it.alias_or_name.eq(item_name))
-            .collect(),
-        BasePathType::Module { module_name } => use_items
-            .filter(|it| {
-                matches!(it.type_, UseItemType::Module | UseItemType::SelfModule)
-                    && it.alias_or_name.eq(module_name)
-            })
-            .collect(),
-        _ => vec![],
+    let (name, use_item_kinds) = match path_type {
+        BasePathType::Address => return vec![],
+        BasePathType::Item { item_name } => (item_name, vec![UseItemKind::Item]),
+        BasePathType::Module { module_name } => (module_name, vec![UseItemKind::Module]),
+        BasePathType::ModuleOrItem { name } => (name, vec![UseItemKind::Module, UseItemKind::Item]),
+    };
+    let use_items = use_items
+        .filter(|it| it.alias_or_name.eq(name))
+        .collect::<Vec<_>>();
+    use_item_kinds
+        .into_iter()
+        .map(|kind| {
+            use_items
+                .iter()
+                .copied()
+                .filter(|it| UseItemKind::from(&it.type_) == kind)
+                .collect::<Vec<_>>()
+        })
+        .find(|it| !it.is_empty())
+        .unwrap_or_default()
+}
+
+#[derive(Debug, Eq, PartialEq)]
+enum UseItemKind {
+    Module,
+    Item,
+}
+
+impl From<&UseItemType> for UseItemKind {
+    fn from(value: &UseItemType) -> Self {
+        match value {
+            UseItemType::Module | UseItemType::SelfModule => UseItemKind::Module,
+            UseItemType::Item => UseItemKind::Item,
+        }
     }
 }
 
@@ -94,34 +118,37 @@ enum BasePathType {
     Address,
     Module { module_name: String },
     Item { item_name: String },
+    ModuleOrItem { name: String },
 }
 
 impl BasePathType {
     fn for_path(db: &dyn SourceDatabase, path: &ast::Path) -> Option<BasePathType> {
         let root_path = path.root_path();
-        let qualifier = root_path.qualifier();
-        match qualifier {
+        let base_path = path.base_path();
+        // 0x1::foo
+        if base_path.path_address().is_some() {
+            return Some(BasePathType::Address);
+        }
+        let name = base_path.reference_name()?;
+        match root_path.qualifier() {
+            // friend foo;
+            None if root_path.syntax().parent_of_type::<ast::Friend>().is_some() => {
+                Some(BasePathType::Module { module_name: name })
+            }
+            // #[expected_failure(location = foo)]
+            None if root_path.syntax().has_ancestor_strict::<ast::AttrItem>() => {
+                Some(BasePathType::ModuleOrItem { name })
+            }
             // foo
-            None => Some(BasePathType::Item {
-                item_name: root_path.reference_name()?,
-            }),
-            // 0x1::foo
-            Some(qualifier) if qualifier.path_address().is_some() => Some(BasePathType::Address),
-            Some(qualifier) => {
-                let parent_qualifier = qualifier.qualifier();
-                // addr::m::foo
-                if let Some(parent_qualifier) = parent_qualifier
-                    && let Some(parent_name) = parent_qualifier.reference_name()
-                    && hir_db::named_addresses(db).contains_key(&parent_name)
-                {
-                    Some(BasePathType::Address)
-                } else {
-                    // mod::foo
-                    Some(BasePathType::Module {
-                        module_name: qualifier.reference_name()?,
-                    })
-                }
+            None => Some(BasePathType::Item { item_name: name }),
+            // addr::m::foo
+            Some(qualifier)
+                if qualifier != base_path && hir_db::named_addresses(db).contains_key(&name) =>
+            {
+                Some(BasePathType::Address)
             }
+            // mod::foo, mod::Enum::Variant, Enum::Variant
+            Some(_) => Some(BasePathType::ModuleOrItem { name }),
         }
     }
 }
-- 
2.43.0


From 2e0f7ffe1794f9d48a9161fd920238b42f41c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 16/19] fix: insert a line after an unindented node without
 panicking

---
 crates/syntax/src/syntax_editor/syntax_editor_ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
index a7db036..30393ba 100644
--- a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
+++ b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
@@ -10,8 +10,7 @@ impl SyntaxEditor {
         self.insert_all(
             Position::after(relative_to.syntax()),
             vec![
-                make.newline().syntax_element(),
-                make.whitespace(&indent_level.to_string()).syntax_element(),
+                make.whitespace(&format!("\n{indent_level}")).syntax_element(),
                 element.syntax_element(),
             ],
         );
-- 
2.43.0


From ca904a36be338988cdf945d8995a6315463afcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 17/19] fix: do not take an unused import for one used by tests
 only

---
 .../src/handlers/reduced_scope_import.rs      | 41 ++++---------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/reduced_scope_import.rs b/crates/ide-diagnostics/src/handlers/reduced_scope_import.rs
index 1e11677..7039033 100644
--- a/crates/ide-diagnostics/src/handlers/reduced_scope_import.rs
+++ b/crates/ide-diagnostics/src/handlers/reduced_scope_import.rs
@@ -4,7 +4,6 @@ use lang::hir_db;
 use lang::item_scope::ItemScope;
 use lang::nameres::use_speck_entries::{UseItem, use_items_for_stmt};
 use std::collections::HashSet;
-use stdx::itertools::Itertools;
 use syntax::ast;
 use syntax::files::InFile;
 
@@ -24,39 +23,17 @@ pub(crate) fn find_use_items_with_redundant_main_scope(
         })
         .collect::<HashSet<_>>();
 
-    let mut use_items_with_unused_declared_scopes = vec![];
+    let mut use_items_with_reductable_scope = vec![];
     for use_stmt in hir_db::combined_use_stmts(db, use_stmts_owner) {
         for use_item in use_items_for_stmt(db, use_stmt)? {
-            let use_items_with_declared_scopes = match &use_item.declared_scope {
-                // `use 0x1::m` -> [(use 0x1::m, Main), (use 0x1::m, Test)]
-                ItemScope::Main => HashSet::from([
-                    (use_item.clone(), ItemScope::Main),
-                    (use_item.clone(), ItemScope::Test),
-                ]),
-                // `#[test_only] use 0x1::m` -> [(use 0x1::m, Test)]
-                ItemScope::Test => HashSet::from([(use_item.clone(), ItemScope::Test)]),
-                ItemScope::Verify => {
-                    // #[verify_only] does not participate in scope reduction
-                    continue;
-                }
-            };
-            use_items_with_unused_declared_scopes.extend(
-                use_items_with_declared_scopes
-                    .difference(&use_items_hit_with_usage_scopes)
-                    .cloned(),
-            );
-        }
-    }
-
-    let mut use_items_with_reductable_scope = vec![];
-    for (use_item, chunk) in &use_items_with_unused_declared_scopes
-        .iter()
-        .chunk_by(|(use_item, _)| use_item)
-    {
-        let scopes = chunk.map(|(_, scope)| *scope).collect::<Vec<_>>();
-        // only #[main] -> #[test_only] reduction is supported
-        if scopes == vec![ItemScope::Main] {
-            use_items_with_reductable_scope.push(use_item.clone());
+            // only #[main] -> #[test_only] reduction is supported
+            if use_item.declared_scope != ItemScope::Main {
+                continue;
+            }
+            let is_used_in = |scope| use_items_hit_with_usage_scopes.contains(&(use_item.clone(), scope));
+            if !is_used_in(ItemScope::Main) && is_used_in(ItemScope::Test) {
+                use_items_with_reductable_scope.push(use_item);
+            }
         }
     }
 
-- 
2.43.0


From 1ed5f0c4b35249f2e617ae418df125f08087201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 18/19] fix: organize a use statement with both unused and
 test-only imports

---
 .../unused_import/organize_imports.rs         | 109 ++++++++++--------
 1 file changed, 62 insertions(+), 47 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
index 15470c0..3573d68 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
@@ -3,14 +3,14 @@
 
 use crate::handlers::reduced_scope_import::find_use_items_with_redundant_main_scope;
 use crate::handlers::unused_import::{
-    UnusedUseKind, UnusedUseStmtKind, find_unused_use_items, unused_use_kind,
+    UnusedUseKind, find_unused_use_items, unused_use_kind,
 };
 use base_db::SourceDatabase;
 use ide_db::RootDatabase;
 use ide_db::assist_context::LocalAssists;
 use ide_db::assists::{Assist, AssistResolveStrategy};
 use lang::Semantics;
-use lang::loc::SyntaxLocFileExt;
+use lang::loc::{SyntaxLoc, SyntaxLocFileExt};
 use syntax::ast::UseStmtsOwner;
 use syntax::ast::edit::AstNodeEdit;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
@@ -46,30 +46,47 @@ fn organize_imports_in_stmts_owner(
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
     let unused_use_items = find_unused_use_items(db, &use_stmts_owner)?;
+    let test_only_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
     let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
     for use_stmt in use_stmts {
         let unused_stmt_use_items = unused_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
             .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
-        remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_use_kind, editor);
-    }
-
-    let redundant_main_scope_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
-    let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
-    for use_stmt in use_stmts {
-        let redundant_scope_use_items = redundant_main_scope_use_items
+        let test_only_stmt_use_items = test_only_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
             .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), redundant_scope_use_items)?;
-        replace_main_scope_with_test_only(db, use_stmt.value, unused_use_kind, editor);
+        if test_only_stmt_use_items.is_empty() {
+            let unused_use_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
+            remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_use_kind, editor);
+        } else {
+            let unused_use_specks = to_use_specks(db, unused_stmt_use_items.iter().map(|it| &it.use_speck_loc));
+            let test_only_use_kind = unused_use_kind(db, use_stmt.clone(), test_only_stmt_use_items)?;
+            replace_main_scope_with_test_only(
+                db,
+                use_stmt.value,
+                test_only_use_kind,
+                unused_use_specks,
+                editor,
+            );
+        }
     }
 
     Some(())
 }
 
+fn to_use_specks<'a>(
+    db: &dyn SourceDatabase,
+    use_speck_locs: impl IntoIterator<Item = &'a SyntaxLoc>,
+) -> Vec<ast::UseSpeck> {
+    use_speck_locs
+        .into_iter()
+        .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
+        .map(|it| it.value)
+        .collect()
+}
+
 fn remove_unused_imports_in_use_stmt(
     db: &dyn SourceDatabase,
     use_stmt: ast::UseStmt,
@@ -84,12 +101,7 @@ fn remove_unused_imports_in_use_stmt(
                 use_stmt.simplify_root_self(editor);
                 return Some(());
             }
-            let use_specks = use_speck_locs
-                .iter()
-                .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
-                .map(|it| it.value)
-                .collect();
-            use_stmt.delete_group_use_specks(editor, use_specks);
+            use_stmt.delete_group_use_specks(editor, to_use_specks(db, use_speck_locs));
         }
     }
     Some(())
@@ -98,43 +110,46 @@ fn remove_unused_imports_in_use_stmt(
 fn replace_main_scope_with_test_only(
     db: &dyn SourceDatabase,
     use_stmt: ast::UseStmt,
-    unused_use_kind: UnusedUseKind,
+    test_only_use_kind: UnusedUseKind,
+    unused_use_specks: Vec<ast::UseSpeck>,
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
-    match unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, kind } => {
-            if kind == UnusedUseStmtKind::EmptyGroup {
-                return None;
-            }
+    match test_only_use_kind {
+        UnusedUseKind::UseStmt { use_stmt, .. } => {
             use_stmt.value.add_attribute(editor, "test_only");
         }
         UnusedUseKind::UseSpeck { use_speck_locs } => {
-            let root_use_speck = use_stmt.use_speck()?;
-            let module_path = root_use_speck.path()?;
-            for use_speck_loc in use_speck_locs {
-                if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(db).map(|it| it.value)
-                    && let Some(use_speck_name_ref) = use_speck.path_name_ref()
-                {
-                    let use_speck_alias = use_speck.use_alias().clone();
-                    use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
-
-                    let make = SyntaxFactory::new();
-                    let new_root_use_speck = make.root_use_speck(
-                        module_path.clone(),
-                        Some(use_speck_name_ref.clone()),
-                        use_speck_alias,
-                    );
-                    editor.insert_at_next_line_after(
-                        &use_stmt,
-                        make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
-                            .indent_inner(use_stmt.indent_level())
-                            .syntax()
-                            .syntax_element(),
-                    );
+            let make = SyntaxFactory::new();
+            let module_path = use_stmt.use_speck()?.path()?;
+            let test_only_use_specks = to_use_specks(db, &use_speck_locs);
+            let test_only_use_stmts = test_only_use_specks.iter().filter_map(|use_speck| {
+                let use_speck = make.root_use_speck(
+                    module_path.clone(),
+                    Some(use_speck.path_name_ref()?),
+                    use_speck.use_alias(),
+                );
+                let use_stmt = make
+                    .use_stmt(vec![make.attr("test_only")], use_speck)
+                    .indent_inner(use_stmt.indent_level());
+                Some(use_stmt.syntax().syntax_element())
+            });
 
-                    editor.add_mappings(make.finish_with_mappings());
+            let use_specks_to_delete = [unused_use_specks, test_only_use_specks.clone()].concat();
+            if use_stmt.group_use_specks().iter().all(|it| use_specks_to_delete.contains(it)) {
+                // nothing is left of the original stmt
+                let indent = use_stmt.indent_level();
+                let elements = test_only_use_stmts
+                    .flat_map(|it| [make.whitespace(&format!("\n{indent}")).syntax_element(), it])
+                    .skip(1)
+                    .collect::<Vec<_>>();
+                editor.replace_with_many(use_stmt.syntax(), elements);
+            } else {
+                use_stmt.delete_group_use_specks(editor, use_specks_to_delete);
+                for test_only_use_stmt in test_only_use_stmts.rev() {
+                    editor.insert_at_next_line_after(&use_stmt, test_only_use_stmt);
                 }
             }
+            editor.add_mappings(make.finish_with_mappings());
         }
     }
     Some(())
-- 
2.43.0


From dd62a9e2fdfb9cfe00b8bfe8841c79b2027831f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 19/19] fix: a method's receiver decides on its type arguments
 before the expected type

---
 crates/lang/src/types/inference/ast_walker.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index bcd8c7d..484334b 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -669,6 +669,13 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 TyCallable::fake(1 + method_call_expr.arg_exprs().len(), TyCallableKind::fake())
             }
         };
+        // receiver type is known, it decides on the type parameters before the expected type does
+        if let Some(self_param_ty) = method_ty.param_types.first() {
+            let self_param_ty = self.ctx.resolve_ty_vars_if_possible(self_param_ty.to_owned());
+            if let Some(actual_self_ty) = autoborrow(self_ty.clone(), &self_param_ty) {
+                let _ = self.ctx.combine_types(actual_self_ty, self_param_ty);
+            }
+        }
         let method_call_ty = self.ctx.resolve_ty_vars_if_possible(method_ty);
 
         let expected_arg_tys = self.infer_expected_call_arg_tys(&method_call_ty, expected);
-- 
2.43.0

