From 5cee2255274ece65e40f776a63cf8d7335aa15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 01/48] fix: link the function calls that occur in the
 condition of an inline conditional

---
 compiler/src/hir/merger.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
-- 
2.43.0


From c0ad365738f6e92fcd36d80d9140ae9255c04830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 02/48] fix: evaluate only the selected branch of an inline
 conditional and reevaluate loop conditions

---
 compiler/src/hir/sugar_cleaner.rs | 149 +++++++++++++++++++++---------
 1 file changed, 103 insertions(+), 46 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..d3a23c0 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -90,6 +90,7 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
     if let Block { stmts, .. } = stmt {
         let checkpoint_id = state.fresh_id;
         map_init_blocks(stmts);
+        map_switches(stmts);
         map_stmts_with_sugar(stmts, state, context);
         map_substitutions(stmts);
         map_constraint_equalities(stmts);
@@ -104,12 +105,23 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::While;
     if let While { cond, stmt, .. } = stmt {
-        let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
-        let mut expr = vec![cond.clone()];
-        sugar_filter(&mut expr, state, &mut expands);
-        *cond = expr.pop().unwrap();
+        let expands = extend_condition(cond, state, context);
+        into_block(stmt);
+        extend_statement(stmt, state, context);
+        if !expands.is_empty() {
+            // the extracted part of the condition is evaluated again after each iteration
+            let mut updates: Vec<Statement> =
+                expands.iter().filter(|s| !s.is_declaration()).cloned().collect();
+            map_substitutions(&mut updates);
+            let meta = stmt.get_meta().clone();
+            let body = std::mem::replace(
+                stmt.as_mut(),
+                Statement::Block { meta: meta.clone(), stmts: vec![] },
+            );
+            let mut stmts = vec![body];
+            stmts.append(&mut updates);
+            **stmt = Statement::Block { meta, stmts };
+        }
         expands
     } else {
         unreachable!()
@@ -123,22 +135,36 @@ fn extend_conditional(
 ) -> Vec<Statement> {
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
-        let mut expands = vec![];
-        expands.append(&mut extend_statement(if_case, state, context));
+        into_block(if_case);
+        extend_statement(if_case, state, context);
         if let Option::Some(s) = else_case {
-            expands.append(&mut extend_statement(s, state, context));
+            into_block(s);
+            extend_statement(s, state, context);
         }
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
-        let mut expr = vec![cond.clone()];
-        sugar_filter(&mut expr, state, &mut expands);
-        *cond = expr.pop().unwrap();
-        expands
+        extend_condition(cond, state, context)
     } else {
         unreachable!()
     }
 }
 
+fn extend_condition(cond: &mut Expression, state: &mut State, context: &Context) -> Vec<Statement> {
+    let mut expands = extend_expression(cond, state, context).initializations;
+    let mut expr = vec![cond.clone()];
+    sugar_filter(&mut expr, state, context, &mut expands);
+    *cond = expr.pop().unwrap();
+    expands
+}
+
+// The code extracted from a statement has to stay next to it
+fn into_block(stmt: &mut Box<Statement>) {
+    if !stmt.is_block() {
+        let meta = stmt.get_meta().clone();
+        let empty = Statement::Block { meta: meta.clone(), stmts: vec![] };
+        let inner = std::mem::replace(stmt.as_mut(), empty);
+        **stmt = Statement::Block { meta, stmts: vec![inner] };
+    }
+}
+
 fn extend_substitution(
     stmt: &mut Statement,
     state: &mut State,
@@ -154,7 +180,7 @@ fn extend_substitution(
                 let mut expand = extend_expression(e, state, context);
                 inits.append(&mut expand.initializations);
                 let mut expr = vec![e.clone()];
-                sugar_filter(&mut expr, state, &mut inits);
+                sugar_filter(&mut expr, state, context, &mut inits);
                 *e = expr.pop().unwrap();
             }
         }
@@ -174,6 +200,13 @@ fn extend_constraint_equality(
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
+        for side in [lhe, rhe] {
+            if side.is_switch() {
+                let mut expr = vec![side.clone()];
+                sugar_filter(&mut expr, state, context, &mut expands);
+                *side = expr.pop().unwrap();
+            }
+        }
         expands
     } else {
         unreachable!()
@@ -195,8 +228,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
         let mut initializations = Vec::new();
         for arglog in args {
             if let LogArgument::LogExp(arg) = arglog {
-                let mut exp = extend_expression(arg, state, context);
-                initializations.append(&mut exp.initializations);
+                initializations.append(&mut extend_condition(arg, state, context));
             }
         }
         initializations
@@ -208,7 +240,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        extend_condition(arg, state, context)
     } else {
         unreachable!()
     }
@@ -257,7 +289,7 @@ fn extend_variable(expr: &mut Expression, state: &mut State, context: &Context)
                 let mut expand = extend_expression(e, state, context);
                 inits.append(&mut expand.initializations);
                 let mut expr = vec![e.clone()];
-                sugar_filter(&mut expr, state, &mut inits);
+                sugar_filter(&mut expr, state, context, &mut inits);
                 *e = expr.pop().unwrap();
             }
         }
@@ -269,7 +301,7 @@ fn extend_variable(expr: &mut Expression, state: &mut State, context: &Context)
         // new_id = expr
         if state.inside_mixed_component && is_mixed_component{
             let id = state.produce_id();
-            *expr = rmv_sugar(&id, expr.clone(), &mut inits);
+            *expr = rmv_sugar(&id, expr.clone(), state, context, &mut inits);
         }
 
         ExtendedSyntax { initializations: inits }
@@ -283,7 +315,7 @@ fn extend_prefix(expr: &mut Expression, state: &mut State, context: &Context) ->
     if let PrefixOp { rhe, .. } = expr {
         let mut extended = extend_expression(rhe, state, context);
         let mut expr = vec![*rhe.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
+        sugar_filter(&mut expr, state, context, &mut extended.initializations);
         *rhe = Box::new(expr.pop().unwrap());
         extended
     } else {
@@ -296,7 +328,7 @@ fn extend_parallel(expr: &mut Expression, state: &mut State, context: &Context)
     if let ParallelOp { rhe, .. } = expr {
         let mut extended = extend_expression(rhe, state, context);
         let mut expr = vec![*rhe.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
+        sugar_filter(&mut expr, state, context, &mut extended.initializations);
         *rhe = Box::new(expr.pop().unwrap());
         extended
     } else {
@@ -317,7 +349,7 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
         lh_expand.initializations.append(&mut rh_expand.initializations);
         let mut extended = lh_expand;
         let mut expr = vec![*lhe.clone(), *rhe.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
+        sugar_filter(&mut expr, state, context, &mut extended.initializations);
 
         let mut expr_rhe = expr.pop().unwrap();
         let expr_lhe = expr.pop().unwrap();
@@ -366,21 +398,10 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
     }
 }
 
-fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
-    use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
-        let mut true_expand = extend_expression(if_true, state, context);
-        let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
-        let mut expr = vec![*if_true.clone(), *if_false.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
-        *if_false = Box::new(expr.pop().unwrap());
-        *if_true = Box::new(expr.pop().unwrap());
-        extended
-    } else {
-        unreachable!()
-    }
+fn extend_switch(_expr: &mut Expression, _state: &mut State, _context: &Context) -> ExtendedSyntax {
+    // only the selected branch is evaluated: the branches are extended once the
+    // switch is turned into an if-then-else (see rmv_sugar and map_switches)
+    ExtendedSyntax { initializations: vec![] }
 }
 
 fn extend_array(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
@@ -427,7 +448,7 @@ fn extend_array(expr: &mut Expression, state: &mut State, context: &Context) ->
             }
         }
 
-        sugar_filter(values, state, &mut initializations);
+        sugar_filter(values, state, context, &mut initializations);
         ExtendedSyntax { initializations }
     } else if let UniformArray { value, dimension, .. } = expr {
         let mut value_expand = extend_expression(value, state, context);
@@ -435,7 +456,7 @@ fn extend_array(expr: &mut Expression, state: &mut State, context: &Context) ->
         value_expand.initializations.append(&mut dimension_expand.initializations);
         let mut extended = value_expand;
         let mut expr = vec![*value.clone(), *dimension.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
+        sugar_filter(&mut expr, state, context, &mut extended.initializations);
         *dimension = Box::new(expr.pop().unwrap());
         *value = Box::new(expr.pop().unwrap());
         extended
@@ -452,7 +473,7 @@ fn extend_call(expr: &mut Expression, state: &mut State, context: &Context) -> E
             let mut extended = extend_expression(a, state, context);
             inits.append(&mut extended.initializations);
         }
-        sugar_filter(args, state, &mut inits);
+        sugar_filter(args, state, context, &mut inits);
         ExtendedSyntax { initializations: inits }
     } else {
         unreachable!()
@@ -461,13 +482,18 @@ fn extend_call(expr: &mut Expression, state: &mut State, context: &Context) -> E
 
 // Utils
 
-fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut Vec<Statement>) {
+fn sugar_filter(
+    elements: &mut Vec<Expression>,
+    state: &mut State,
+    context: &Context,
+    inits: &mut Vec<Statement>,
+) {
     let work = std::mem::replace(elements, Vec::with_capacity(elements.len()));
     for elem in work {
         let should_be_extracted = elem.is_call() || elem.is_switch() || elem.is_array();
         if should_be_extracted {
             let id = state.produce_id();
-            let expr = rmv_sugar(&id, elem, inits);
+            let expr = rmv_sugar(&id, elem, state, context, inits);
             elements.push(expr);
         } else {
             elements.push(elem);
@@ -475,7 +501,13 @@ fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut V
     }
 }
 
-fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>) -> Expression {
+fn rmv_sugar(
+    fresh_variable: &str,
+    expr: Expression,
+    state: &mut State,
+    context: &Context,
+    buffer: &mut Vec<Statement>,
+) -> Expression {
     use Expression::Variable;
     use Statement::{Declaration, Substitution};
     let mut declaration_meta = expr.get_meta().clone();
@@ -502,7 +534,12 @@ fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>
     let new_arg =
         Variable { meta: variable_meta, name: fresh_variable.to_string(), access: vec![] };
     buffer.push(declaration);
-    buffer.push(initialization);
+    let mut initialization = vec![initialization];
+    map_switches(&mut initialization);
+    for stmt in initialization.iter_mut().filter(|s| s.is_if_then_else()) {
+        buffer.append(&mut extend_statement(stmt, state, context));
+    }
+    buffer.append(&mut initialization);
     new_arg
 }
 
@@ -528,6 +565,26 @@ fn map_init_blocks(stmts: &mut Vec<Statement>) {
     }
 }
 
+fn map_switches(stmts: &mut Vec<Statement>) {
+    use Statement::{Block, IfThenElse, Return};
+    let work = std::mem::take(stmts);
+    for w in work {
+        match w {
+            Statement::Substitution { ref rhe, .. } if rhe.is_switch() => rhe_switch_case(w, stmts),
+            Return { value: Expression::InlineSwitchOp { cond, if_true, if_false, .. }, meta } => {
+                let branch = |value: Expression| {
+                    let stmts = vec![Return { meta: meta.clone(), value }];
+                    Box::new(Block { meta: meta.clone(), stmts })
+                };
+                let if_case = branch(*if_true);
+                let else_case = Option::Some(branch(*if_false));
+                stmts.push(IfThenElse { meta, cond: *cond, if_case, else_case });
+            }
+            _ => stmts.push(w),
+        }
+    }
+}
+
 fn map_substitutions(stmts: &mut Vec<Statement>) {
     let work = std::mem::take(stmts);
     for w in work {
-- 
2.43.0


From 315aed2982289facee7959e9ff8a0f1a711cf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 03/48] fix: an array selected by an unknown value makes every
 position of the assigned array unknown

---
 constraint_generation/src/execute.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..61be859 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1588,6 +1588,15 @@ fn perform_assign(
             r_slice = AExpressionSlice::new_with_route(r_slice.route(), &AExpr::NonQuadratic);
             r_tags = TagWire::default();
         }
+        if r_slice.is_single() && !accessing_information.undefined {
+            // an array of unknown values may be represented by a single value
+            let target =
+                AExpressionSlice::access_values(symbol_content, &accessing_information.before_signal);
+            if let Result::Ok(target) = target {
+                let value = AExpressionSlice::unwrap_to_single(r_slice);
+                r_slice = AExpressionSlice::new_with_route(target.route(), &value);
+            }
+        }
         if accessing_information.undefined {
             let new_value =
                 AExpressionSlice::new_with_route(symbol_content.route(), &AExpr::NonQuadratic);
-- 
2.43.0


From 950a0a78611984952e51089918a12214cce92f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 04/48] fix: read the right-hand side of an array assignment
 before writing the assigned array

---
 compiler/src/hir/sugar_cleaner.rs | 33 +++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index d3a23c0..58584c7 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -171,9 +171,14 @@ fn extend_substitution(
     context: &Context,
 ) -> Vec<Statement> {
     use Statement::Substitution;
-    if let Substitution { rhe, access, .. } = stmt {
+    if let Substitution { var, rhe, access, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
-        
+        if rhe.is_array() && mentions(rhe, var) {
+            // the right-hand side has to be read before writing any position of the array
+            let mut expr = vec![rhe.clone()];
+            sugar_filter(&mut expr, state, context, &mut expands);
+            *rhe = expr.pop().unwrap();
+        }
         let mut inits = vec![];
         for acc in access {
             if let Access::ArrayAccess(e) = acc {
@@ -543,6 +548,30 @@ fn rmv_sugar(
     new_arg
 }
 
+fn mentions(expr: &Expression, symbol: &str) -> bool {
+    use Expression::*;
+    match expr {
+        InfixOp { lhe, rhe, .. } => mentions(lhe, symbol) || mentions(rhe, symbol),
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => mentions(rhe, symbol),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            mentions(cond, symbol) || mentions(if_true, symbol) || mentions(if_false, symbol)
+        }
+        Variable { name, access, .. } => {
+            name == symbol
+                || access.iter().any(|a| match a {
+                    Access::ArrayAccess(index) => mentions(index, symbol),
+                    _ => false,
+                })
+        }
+        Call { args, .. } | BusCall { args, .. } => args.iter().any(|a| mentions(a, symbol)),
+        ArrayInLine { values, .. } => values.iter().any(|v| mentions(v, symbol)),
+        UniformArray { value, dimension, .. } => {
+            mentions(value, symbol) || mentions(dimension, symbol)
+        }
+        _ => false,
+    }
+}
+
 // mappings
 fn map_stmts_with_sugar(stmts: &mut Vec<Statement>, state: &mut State, context: &Context) {
     let work = std::mem::take(stmts);
-- 
2.43.0


From bcaf2d99d23cf97bbd3f550b337e0c3aa51d99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 05/48] fix: extract the function calls that are a side of a
 constraint equality

---
 compiler/src/hir/sugar_cleaner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 58584c7..605503e 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -206,7 +206,7 @@ fn extend_constraint_equality(
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
         for side in [lhe, rhe] {
-            if side.is_switch() {
+            if side.is_switch() || side.is_call() {
                 let mut expr = vec![side.clone()];
                 sugar_filter(&mut expr, state, context, &mut expands);
                 *side = expr.pop().unwrap();
-- 
2.43.0


From 7194e06a62e00c153b7e092a231b1a1564a74b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:14 +0000
Subject: [PATCH 06/48] fix: infer the type of a call whose arguments call the
 same function

---
 compiler/src/hir/type_inference.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index fb633ba..45d4c24 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -252,16 +252,16 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
         if context.open_calls.contains(id) {
             Option::None
         } else {
-            context.open_calls.insert(id.clone());
-            context.environment.add_variable_block();
-            let mut index = 0;
-            let body = &state.generic_functions.get(id).unwrap().body;
-            let names = &state.generic_functions.get(id).unwrap().params_names;
             let arg_types = infer_args(args, state, context);
             if arg_types.is_none() {
                 return Option::None;
             }
             let arg_types = arg_types.unwrap();
+            context.open_calls.insert(id.clone());
+            context.environment.add_variable_block();
+            let mut index = 0;
+            let body = &state.generic_functions.get(id).unwrap().body;
+            let names = &state.generic_functions.get(id).unwrap().params_names;
             for arg_type in arg_types {
                 context.environment.add_variable(&names[index], arg_type);
                 index += 1;
-- 
2.43.0


From ca281418973716b1feae0f858e7595a5ca067acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:27 +0000
Subject: [PATCH 07/48] fix: keep the evaluation of the expressions that
 contain asserts to be checked in the witness generation

---
 constraint_generation/src/execute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 61be859..28f56a3 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -46,6 +46,7 @@ struct RuntimeInformation {
     pub block_type: BlockType,
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
+    pub pending_asserts: usize, // asserts that have to be checked in the witness generation
     pub analysis: Analysis,
     pub public_inputs: Vec<String>,
     pub constants: UsefulConstants,
@@ -71,6 +72,7 @@ impl RuntimeInformation {
             anonymous_components: AnonymousComponentsInfo::new(),
             conditions_state: Vec::new(),
             unknown_counter: 0,
+            pending_asserts: 0,
         }
     }
 }
@@ -770,6 +772,7 @@ fn execute_statement(
                 Some(b) if b => Ok(None),
                 _ => {
                     can_be_simplified = false;
+                    runtime.pending_asserts += 1;
                     Ok(None)
                 }
             };
@@ -958,6 +961,7 @@ fn execute_expression(
 ) -> Result<FoldedValue, ()> {
     use Expression::*;
     let mut can_be_simplified = true;
+    let previous_asserts = runtime.pending_asserts;
     let res = match expr {
         Number(_, value) => {
             let a_value = AExpr::Number { value: value.clone() };
@@ -1261,7 +1265,8 @@ fn execute_expression(
     let expr_id = expr.get_meta().elem_id;
     let res_p = res.arithmetic_slice.clone();
     if let Some(slice) = res_p {
-        if slice.is_single() && can_be_simplified{
+        let without_asserts = runtime.pending_asserts == previous_asserts;
+        if slice.is_single() && can_be_simplified && without_asserts {
             let value = AExpressionSlice::unwrap_to_single(slice);
             Analysis::computed(&mut runtime.analysis, expr_id, value);
         }
-- 
2.43.0


From 45ef0ca9350514324e19a2a12033968a32a07c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:30 +0000
Subject: [PATCH 08/48] fix: infer the type of a function that calls another
 function again in the arguments of a call

---
 type_analysis/src/analyzers/type_given_function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/type_analysis/src/analyzers/type_given_function.rs b/type_analysis/src/analyzers/type_given_function.rs
index 427d11b..97490da 100644
--- a/type_analysis/src/analyzers/type_given_function.rs
+++ b/type_analysis/src/analyzers/type_given_function.rs
@@ -56,13 +56,16 @@ fn start(
         initial_block.insert(name.clone(), t.clone());
     }
     environment.push(initial_block);
-    look_for_return_value(
+    let return_type = look_for_return_value(
         function_name,
         &mut environment,
         explored_functions,
         function_data,
         function_info,
-    )
+    );
+    // only the calls that are still open are recursive
+    explored_functions.remove(function_name);
+    return_type
 }
 
 fn look_for_return_value(
-- 
2.43.0


From bd911b98bc6f26ca0be696b43c14d04191c295ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 09/48] fix: the branches of an inline conditional with unknown
 condition are evaluated in the witness generation

---
 constraint_generation/src/execute.rs | 43 ++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 28f56a3..24addfa 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1240,6 +1240,9 @@ fn execute_expression(
                     execute_expression(if_false, program_archive, runtime, flags)?
                 }
             } else {
+                // the selected branch is only known in the witness generation
+                leave_unevaluated(if_true, program_archive, runtime, flags)?;
+                leave_unevaluated(if_false, program_archive, runtime, flags)?;
                 let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
                 FoldedValue { arithmetic_slice, ..FoldedValue::default() }
             }
@@ -1274,6 +1277,46 @@ fn execute_expression(
     Result::Ok(res)
 }
 
+// The expression is evaluated in the witness generation: the values that it may have had in
+// previous executions are not its only values. The tags are only available at this point.
+fn leave_unevaluated(
+    expr: &Expression,
+    program_archive: &ProgramArchive,
+    runtime: &mut RuntimeInformation,
+    flags: FlagsExecution,
+) -> Result<(), ()> {
+    use Expression::*;
+    let mut inner: Vec<&Expression> = Vec::new();
+    match expr {
+        Number(..) => return Result::Ok(()),
+        Variable { meta, .. } if meta.get_type_knowledge().is_tag() => {
+            execute_expression(expr, program_archive, runtime, flags)?;
+            return Result::Ok(());
+        }
+        Variable { access, .. } => {
+            for acc in access {
+                if let Access::ArrayAccess(index) = acc {
+                    inner.push(index);
+                }
+            }
+        }
+        InfixOp { lhe, rhe, .. } => inner.extend([lhe.as_ref(), rhe.as_ref()]),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            inner.extend([cond.as_ref(), if_true.as_ref(), if_false.as_ref()])
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => inner.push(rhe.as_ref()),
+        UniformArray { value, .. } => inner.push(value.as_ref()),
+        Call { args, .. } | BusCall { args, .. } => inner.extend(args.iter()),
+        ArrayInLine { values, .. } => inner.extend(values.iter()),
+        _ => {}
+    }
+    for e in inner {
+        leave_unevaluated(e, program_archive, runtime, flags)?;
+    }
+    Analysis::computed(&mut runtime.analysis, expr.get_meta().elem_id, AExpr::NonQuadratic);
+    Result::Ok(())
+}
+
 
 //************************************************* Statement execution support *************************************************
 
-- 
2.43.0


From 269ac355409ff2b4b0ec7acdc3e8a7932051d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 10/48] fix: do not use the log strings as printf formats in
 the C++ code

---
 compiler/src/intermediate_representation/log_bucket.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 3004414..64324ea 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -124,12 +124,12 @@ impl WriteC for LogBucket {
                 log_c.push("}".to_string());
             }
             else if let LogBucketArg::LogStr(string_id) = logarg {
-                let string_value = &producer.get_string_table()[*string_id];
+                let string_value = producer.get_string_table()[*string_id].replace('\\', "\\\\");
 
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec![format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", string_value)]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
-- 
2.43.0


From 5949e7b64dc815a0f78d7fdf1492af51c8b990c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 11/48] fix: escape the log strings in the wat code

---
 .../src/wasm_elements/wasm_code_generator.rs  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..bee9dbb 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -4,6 +4,22 @@ use std::fs::File;
 use std::io::prelude::*;
 use std::path::PathBuf;
 
+// the characters that cannot occur in a string of the text format are written as bytes
+pub fn wasm_string(value: &str) -> String {
+    let mut out = String::new();
+    for c in value.chars() {
+        if c == '\\' || c == '"' || c.is_control() {
+            let mut buffer = [0; 4];
+            for byte in c.encode_utf8(&mut buffer).bytes() {
+                out.push_str(&format!("\\{:02x}", byte));
+            }
+        } else {
+            out.push(c);
+        }
+    }
+    out
+}
+
 pub fn wasm_hexa(nbytes: usize, num: &BigInt) -> String {
     let inbytes = num.to_str_radix(16).to_string();
     assert!(
@@ -768,13 +784,13 @@ pub fn generate_data_list(producer: &WASMProducer) -> Vec<WasmInstruction> {
             wdata.push(format!(
                 "(data (i32.const {}) \"{}\\00\")",
                 s + i * producer.get_size_of_message_in_bytes(),
-                st[i]
+                wasm_string(&st[i])
             ));
         } else {
             wdata.push(format!(
                 "(data (i32.const {}) \"{}\\00\")",
                 s + i * producer.get_size_of_message_in_bytes(),
-                &st[i][..producer.get_size_of_message_in_bytes()-1]
+                wasm_string(&st[i][..producer.get_size_of_message_in_bytes()-1])
             ));
         }
     }
-- 
2.43.0


From b54dfc6ffbf2647769d73e2c990b4296d0918073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 12/48] fix: split the long log strings at character boundaries

---
 .../src/abstract_syntax_tree/statement_builders.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..0a69ef4 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -70,7 +70,11 @@ fn split_string(str: String) -> Vec<LogArgument> {
     let sub_len = 230;
     let mut cur = str;
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
+        let mut position = std::cmp::min(sub_len, cur.len());
+        while !cur.is_char_boundary(position) {
+            position -= 1;
+        }
+        let (chunk, rest) = cur.split_at(position);
         v.push(LogArgument::LogStr(chunk.to_string()));
         cur = rest.to_string();
     }
-- 
2.43.0


From 197e31830ce7666a85a3ed70cb7e86faa05a6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:05 +0000
Subject: [PATCH 13/48] fix: allocate as many field definitions as the bus has

---
 code_producers/src/c_elements/common/main.cpp   | 2 +-
 code_producers/src/c_elements/common64/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..e9b1cb7 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -108,7 +108,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..5588bb7 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -101,7 +101,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From f6a6d3c7b41ce392473f90f5da378ff5ef777a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:05 +0000
Subject: [PATCH 14/48] fix: the comment marks inside the strings do not start
 comments

---
 parser/src/parser_logic.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..81319e6 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -33,6 +33,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     Some(c1) => {
                         pp.push(c0);
                         pp.push(c1);
+                        if c1 == '"' {
+                            state = 3;
+                        }
                     }
                     None => {
                         pp.push(c0);
@@ -40,7 +43,16 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     }
                 }
             }
-            (0, _) => pp.push(c0),
+            // there are no comments inside the strings
+            (0, '"') => {
+                pp.push(c0);
+                state = 3;
+            }
+            (3, '"') | (3, '\n') => {
+                pp.push(c0);
+                state = 0;
+            }
+            (0, _) | (3, _) => pp.push(c0),
             (1, '\n') => {
                 pp.push(c0);
                 state = 0;
-- 
2.43.0


From 28f36a1f8016aa26f9e2d5b9a5b4fc952721dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 15/48] fix: run the parallel components without inputs with
 their parallel code

---
 compiler/src/circuit_design/template.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index c642354..11cb53f 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -272,7 +272,15 @@ impl TemplateCodeInfo {
 	}
 	// if has no inputs should be runned
 	if self.number_of_inputs == 0 {
-	    let cmp_call_name = format!("{}_run", self.header);
+	    let cmp_call_name = if parallel {
+	        // the parallel run releases its thread when it finishes
+	        create_body.push(format!("{}->numThreadMutex.lock();", CIRCOM_CALC_WIT));
+	        create_body.push(format!("{}->numThread++;", CIRCOM_CALC_WIT));
+	        create_body.push(format!("{}->numThreadMutex.unlock();", CIRCOM_CALC_WIT));
+	        format!("{}_run_parallel", self.header)
+	    } else {
+	        format!("{}_run", self.header)
+	    };
 	    let cmp_call_arguments = vec![component_offset(), CIRCOM_CALC_WIT.to_string()]; 
 	    create_body.push(format!("{};",build_call(cmp_call_name, cmp_call_arguments)));
         }
-- 
2.43.0


From 54cb01bbc1341658874926de4431dbee29324070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 16/48] fix: use the parallel code when the template of the
 main component is parallel

---
 compiler/src/circuit_design/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..528da20 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
-- 
2.43.0


From 145482192b512dbb0b1af173a47045b442e476fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 17/48] fix: parenthesize the indexes of the accesses to
 signals of mixed component arrays in C++

---
 compiler/src/intermediate_representation/call_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/load_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/store_bucket.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..13bb2fc 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -592,7 +592,7 @@ impl WriteC for CallBucket {
 					map_prologue.append(&mut index_code);
 					map_prologue.push(format!("map_index_aux[{}]={};",i.to_string(),index_exp));
 					// multiply the offset inthe array by the size of the elements
-					map_index = format!("({})*cur_def->lengths[{}]+map_index_aux[{}]",
+					map_index = format!("(({})*cur_def->lengths[{}]+map_index_aux[{}])",
 							    map_index,(i-1).to_string(),i.to_string());
 				    }
 				    assert!(index_list.len() <= dim);
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..c796689 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -296,7 +296,7 @@ impl WriteC for LoadBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*{}.lengths[{}]",
+				    map_index = format!("({})*{}.lengths[{}]",
 							map_index, cur_def, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..2898377 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -532,7 +532,7 @@ impl WriteC for StoreBucket {
 				let (mut index_code, index_exp) = index_list[i].produce_c(producer, parallel);
 				map_prologue.append(&mut index_code);
 				map_prologue.push(format!("map_index_aux[{}]={};",i.to_string(),index_exp));
-				map_index = format!("({})*cur_def->lengths[{}]+map_index_aux[{}]",
+				map_index = format!("(({})*cur_def->lengths[{}]+map_index_aux[{}])",
 						    map_index,(i-1).to_string(),i.to_string());
 		            }
 			    assert!(index_list.len() <= dim);
-- 
2.43.0


From ca9a297d814ad6e1aa25465c214acaf24cfdc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:03 +0000
Subject: [PATCH 18/48] fix: the constant shifts by more bits than the field
 has give 0

---
 circom_algebra/src/modular_arithmetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..269e61b 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -112,6 +112,10 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
+        if right >= &BigInt::from(field.bits()) {
+            // every bit of the value is shifted out
+            return Result::Ok(BigInt::from(0));
+        }
         let usize_repr = right
             .to_usize()
             .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
@@ -125,6 +129,10 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
+        if right >= &BigInt::from(field.bits()) {
+            // every bit of the value is shifted out
+            return Result::Ok(BigInt::from(0));
+        }
         let usize_repr = right
             .to_usize()
             .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-- 
2.43.0


From 9702f5071c2dfed11ef2f7f1e1825009fa4c0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 19/48] fix: report the constant remainders by 0 instead of
 panicking

---
 circom_algebra/src/modular_arithmetic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 269e61b..c44b5f4 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,6 +58,9 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
+    if right == BigInt::from(0) {
+        return Result::Err(ArithmeticError::DivisionByZero);
+    }
     Result::Ok(modulus(&left, &right))
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
-- 
2.43.0


From 44283eba64295d832a796c4b9f7145a19da23845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:03 +0000
Subject: [PATCH 20/48] fix: keep the constraints that equate a signal to two
 different constants

---
 constraint_list/src/constraint_simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..154d06b 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,22 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut assigned: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(sub) = assigned.get(&signal) {
+            // the signal was already equal to a constant: it must be the same one
+            C::apply_substitution(&mut constraint, sub, field);
+            C::fix_constraint(&mut constraint, field);
+            if !C::is_empty(&constraint) {
+                LinkedList::push_back(&mut cons, constraint);
+            }
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            assigned.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From 21273dc0160beb625a80d50898ee6b433509da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 21/48] fix: write the substitutions in terms of the signals
 that are not substituted

---
 .../src/constraint_simplification.rs          | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 154d06b..6b2dda5 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -6,14 +6,34 @@ use constraint_writers::json_writer::SubstitutionJSON;
 use std::collections::{HashMap, HashSet, LinkedList, BTreeSet};
 use std::sync::Arc;
 
-fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionJSON>) {
-    use super::json_porting::port_substitution;
-    if let Some(w) = writer {
+fn log_substitutions(substitutions: &LinkedList<S>, log: &mut Option<LinkedList<S>>) {
+    if let Some(log) = log {
         for s in substitutions {
-            let (from, to) = port_substitution(s);
-            w.write_substitution(&from, &to).unwrap();
+            log.push_back(s.clone());
+        }
+    }
+}
+
+// A signal used by a substitution can be removed by a later one: the later
+// substitutions are applied, so that only the remaining signals are written
+fn write_substitutions(mut log: LinkedList<S>, file: &str, field: &BigInt) {
+    use super::json_porting::port_substitution;
+    let mut resolved: HashMap<usize, S> = HashMap::with_capacity(log.len());
+    for s in log.iter_mut().rev() {
+        for signal in S::take_cloned_signals(s) {
+            if let Some(sub) = resolved.get(&signal) {
+                S::apply_substitution(s, sub, field);
+            }
         }
+        S::rmv_zero_coefficients(s);
+        resolved.insert(*s.from(), s.clone());
+    }
+    let mut writer = SubstitutionJSON::new(file).unwrap();
+    for s in &log {
+        let (from, to) = port_substitution(s);
+        writer.write_substitution(&from, &to).unwrap();
     }
+    writer.end().unwrap();
 }
 
 #[derive(Default, Clone)]
@@ -200,7 +220,7 @@ fn eq_simplification(
     forbidden: Arc<HashSet<usize>>,
     no_vars: usize,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<LinkedList<S>>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     use std::sync::mpsc;
     use threadpool::ThreadPool;
@@ -254,7 +274,7 @@ fn constant_eq_simplification(
     c_eq: LinkedList<C>,
     forbidden: &HashSet<usize>,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<LinkedList<S>>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
@@ -282,7 +302,7 @@ fn constant_eq_simplification(
 }
 
 fn linear_simplification(
-    log: &mut Option<SubstitutionJSON>,
+    log: &mut Option<LinkedList<S>>,
     linear: LinkedList<C>,
     forbidden: Arc<HashSet<usize>>,
     no_labels: usize,
@@ -456,7 +476,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let mut substitution_log =
         if smp.port_substitution { 
-            Some(SubstitutionJSON::new(&smp.json_substitutions).unwrap()) 
+            Some(LinkedList::new()) 
         } else {
              None 
         };
@@ -731,8 +751,8 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     }
 
 
-    if let Some(w) = substitution_log {
-        w.end().unwrap();
+    if let Some(log) = substitution_log {
+        write_substitutions(log, &smp.json_substitutions, &field);
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
     (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
-- 
2.43.0


From 73503b73c5d4a69b33d17611ca3d8ac9380a7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 22/48] fix: number in the witness only the signals that occur
 in the simplified constraints

---
 constraint_list/src/constraint_simplification.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 6b2dda5..09fa2db 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -725,6 +725,12 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let _trash = constraint_storage.extract_with(&|c| C::is_empty(c));
 
+    // only the signals that still occur in a constraint are used
+    let non_linear_map = if remove_unused {
+        build_non_linear_signal_map(&constraint_storage)
+    } else {
+        non_linear_map
+    };
 
     let signal_map = {
         // println!("Rebuild witness");
-- 
2.43.0


From 610a3c67f8c118a48bed4835c823e00158b16203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 23/48] fix: keep the state of the enclosing conditions after
 the loops

---
 constraint_generation/src/execute.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 24addfa..cc5bcc0 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -686,9 +686,8 @@ fn execute_statement(
             possible_return
         }
         While { cond, stmt, .. } => {
-            // We update the conditions state of the execution
-            runtime.conditions_state.push((runtime.unknown_counter, true));
-            runtime.unknown_counter+=1;
+            // The unknown conditions are added to the conditions state 
+            // by execute_conditional_statement
             loop {
 
                 let (returned, can_simplify, condition_result) = execute_conditional_statement(
@@ -717,8 +716,6 @@ fn execute_statement(
                 } else if !condition_result.unwrap() {
                     break returned;
                 }
-                // We remove the last conditions_state added
-                runtime.conditions_state.pop();
             }
         },
         Block { stmts, .. } => {
-- 
2.43.0


From c67ed71a1f911da3ef729480aeab7646537ea429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:23 +0000
Subject: [PATCH 24/48] fix: check in the witness generation the false asserts
 of the blocks with unknown conditions

---
 constraint_generation/src/execute.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index cc5bcc0..2cac2a0 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -44,6 +44,7 @@ enum BlockType {
 
 struct RuntimeInformation {
     pub block_type: BlockType,
+    pub called_in_unknown_block: bool, // a function is being executed due to a call in an unknown block
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
     pub pending_asserts: usize, // asserts that have to be checked in the witness generation
@@ -62,6 +63,7 @@ impl RuntimeInformation {
         RuntimeInformation {
             current_file,
             block_type: BlockType::Known,
+            called_in_unknown_block: false,
             analysis: Analysis::new(id_max),
             public_inputs: vec![],
             constants: UsefulConstants::new(prime),
@@ -764,8 +766,11 @@ fn execute_statement(
             let f_result = execute_expression(arg, program_archive, runtime, flags)?;
             let arith = safe_unwrap_to_single_arithmetic_expression(f_result, line!());
             let possible_bool = AExpr::get_boolean_equivalence(&arith, runtime.constants.get_p());
+            // in an unknown block the assert may not be reached in the witness generation
+            let in_unknown_block =
+                runtime.block_type == BlockType::Unknown || runtime.called_in_unknown_block;
             let result = match possible_bool {
-                Some(b) if !b => Err(ExecutionError::FalseAssert),
+                Some(b) if !b && !in_unknown_block => Err(ExecutionError::FalseAssert),
                 Some(b) if b => Ok(None),
                 _ => {
                     can_be_simplified = false;
@@ -1350,6 +1355,8 @@ fn execute_call(
         let new_environment = prepare_environment_for_call(id, &arg_values, program_archive);
         let previous_environment = std::mem::replace(&mut runtime.environment, new_environment);
         let previous_block_type = std::mem::replace(&mut runtime.block_type, BlockType::Known);
+        let previous_called_in_unknown_block = runtime.called_in_unknown_block;
+        runtime.called_in_unknown_block |= previous_block_type == BlockType::Unknown;
         let previous_anonymous_components = std::mem::replace(&mut runtime.anonymous_components, AnonymousComponentsInfo::new());
 
         let new_file_id = program_archive.get_function_data(id).get_file_id();
@@ -1361,6 +1368,7 @@ fn execute_call(
         runtime.environment = previous_environment;
         runtime.current_file = previous_id;
         runtime.block_type = previous_block_type;
+        runtime.called_in_unknown_block = previous_called_in_unknown_block;
         runtime.anonymous_components = previous_anonymous_components;
         runtime.call_trace.pop();
         Ok(folded_result)
-- 
2.43.0


From c6a8d8f0f7a2f258fa6f503819ca3fbaf22c30c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 25/48] fix: do not reuse the value of a previous execution of
 an expression that has to be evaluated in the witness generation

---
 constraint_generation/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 2cac2a0..634bf67 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1274,6 +1274,9 @@ fn execute_expression(
         if slice.is_single() && can_be_simplified && without_asserts {
             let value = AExpressionSlice::unwrap_to_single(slice);
             Analysis::computed(&mut runtime.analysis, expr_id, value);
+        } else {
+            // the value that it may have had in a previous execution is not its only value
+            Analysis::computed(&mut runtime.analysis, expr_id, AExpr::NonQuadratic);
         }
     }
     Result::Ok(res)
-- 
2.43.0


From e8cd10140c92d8218a55d26e3e29b6b878d2fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 26/48] fix: report the recursive bus definitions

---
 .../src/analyzers/symbol_analysis.rs          | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/type_analysis/src/analyzers/symbol_analysis.rs b/type_analysis/src/analyzers/symbol_analysis.rs
index 94a9ad0..b2b06a9 100644
--- a/type_analysis/src/analyzers/symbol_analysis.rs
+++ b/type_analysis/src/analyzers/symbol_analysis.rs
@@ -6,6 +6,7 @@ use program_structure::program_archive::ProgramArchive;
 use program_structure::function_data::FunctionInfo;
 use program_structure::template_data::TemplateInfo;
 use program_structure::bus_data::BusInfo;
+use program_structure::wire_data::WireType;
 use std::collections::HashSet;
 type Block = HashSet<String>;
 type Environment = Vec<Block>;
@@ -60,6 +61,18 @@ pub fn check_naming_correctness(program_archive: &ProgramArchive) -> Result<(),
             reports.append(&mut r);
         }
     }
+    for (name, data) in bus_info {
+        if is_recursive_bus(name, bus_info) {
+            let mut report =
+                Report::error(format!("Recursive bus definition"), ReportCode::UndefinedBus);
+            report.add_primary(
+                data.get_param_location(),
+                data.get_file_id(),
+                format!("The bus {} contains itself", name),
+            );
+            reports.push(report);
+        }
+    }
     if reports.is_empty() {
         Result::Ok(())
     } else {
@@ -67,6 +80,27 @@ pub fn check_naming_correctness(program_archive: &ProgramArchive) -> Result<(),
     }
 }
 
+// The fields of a bus cannot contain, directly or through other buses, the bus itself
+fn is_recursive_bus(name: &String, bus_info: &BusInfo) -> bool {
+    let mut pending = vec![name.clone()];
+    let mut visited = HashSet::new();
+    while let Some(bus) = pending.pop() {
+        if let Some(data) = bus_info.get(&bus) {
+            for field in data.get_fields().values() {
+                if let WireType::Bus(field_bus) = field.get_type() {
+                    if field_bus == *name {
+                        return true;
+                    }
+                    if visited.insert(field_bus.clone()) {
+                        pending.push(field_bus);
+                    }
+                }
+            }
+        }
+    }
+    false
+}
+
 fn analyze_main(program: &ProgramArchive) -> Result<(), Vec<Report>> {
     let call = program.get_main_expression();
     let signals = program.get_public_inputs_main_component();
-- 
2.43.0


From 488ca378e582b9872d9ebdc5a0254bf541039035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 27/48] fix: the hexadecimal literals have at least a digit

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 681db7f..67a1aa5 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -840,7 +840,7 @@ DECNUMBER: BigInt = {
 };
 
 HEXNUMBER : BigInt = {
-    r"0x[0-9A-Fa-f]*" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
+    r"0x[0-9A-Fa-f]+" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
 };
 
 IDENTIFIER : String = {
-- 
2.43.0


From 77d264af64b6b3e20a8d3ce0de59a9915b3ee939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 28/48] fix: report the parallel operator applied to
 expressions without known type instead of panicking

---
 type_analysis/src/decorators/type_reduction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index b14f4ce..287bfa8 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -91,7 +91,10 @@ fn reduce_types_in_expression(expression: &mut Expression, environment: &Environ
         PrefixOp { rhe, .. } => reduce_types_in_expression(rhe, environment,program_archive),
         ParallelOp { meta, rhe, .. } => {
             let report = reduce_types_in_expression(rhe, environment,program_archive);
-            meta.get_mut_type_knowledge().set_reduces_to(rhe.get_meta().get_type_knowledge().get_reduces_to());
+            let rhe_knowledge = rhe.get_meta().get_type_knowledge();
+            if rhe_knowledge.is_initialized() {
+                meta.get_mut_type_knowledge().set_reduces_to(rhe_knowledge.get_reduces_to());
+            }
             report
         }
         InlineSwitchOp { cond, if_true, if_false, .. } => {
-- 
2.43.0


From 5aee7076fdde00aa42579fbfd946a0cdc214f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 29/48] fix: include the main file only once when another file
 includes it

---
 parser/src/include_logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..8de0106 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -54,7 +54,8 @@ impl FileStack {
                 Some(file) if !f_stack.black_paths.contains(&file) => {
                     f_stack.current_location = file.clone();
                     f_stack.current_location.pop();
-                    f_stack.black_paths.insert(file.clone());
+                    f_stack.black_paths
+                        .insert(std::fs::canonicalize(&file).unwrap_or_else(|_| file.clone()));
                     break Some(file);
                 }
                 _ => {}
-- 
2.43.0


From 2b6018503f67589c75771ddfc25d013e3797ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 30/48] fix: report the huge version numbers of the pragmas
 instead of panicking

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 67a1aa5..04411c0 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -852,7 +852,7 @@ STRING : String = {
 };
 
 SMALL_DECNUMBER: usize = {
-    r"[0-9]+" => usize::from_str(<>).expect("failed to parse number")
+    r"[0-9]+" => usize::from_str(<>).unwrap_or(usize::MAX)
 };
 
 
-- 
2.43.0


From d0b1d86e7078ba00e6cfcf2580987bca2f126794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 31/48] fix: report the tuples and the anonymous components
 used in the main component or in a bus instead of panicking

---
 parser/src/syntax_sugar_remover.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..b852382 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -12,10 +12,13 @@ use num_bigint::BigInt;
 
 
 pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(), Report> {
-    if program_archive.get_main_expression().is_anonymous_comp() {
+    if program_archive.get_main_expression().contains_anonymous_comp() {
         return Result::Err(anonymous_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain an anonymous call  ".to_string()));
      
     }
+    if program_archive.get_main_expression().contains_tuple() {
+        return Result::Err(tuple_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain a tuple ".to_string()));
+    }
     let old_templates = program_archive.templates.clone();
 
     for (_name, t) in &mut program_archive.templates {
@@ -48,6 +51,17 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
             t.set_body(new_body);
         }            
     }
+
+    for (_, b) in &mut program_archive.buses {
+        let old_body = b.get_body().clone();
+        if old_body.contains_anonymous_comp(){
+            return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
+        } else{
+            check_tuples_statement(&old_body)?;
+            let new_body = remove_tuples_from_statement(old_body)?;
+            b.set_body(new_body);
+        }
+    }
     Result::Ok(())
 }
 
-- 
2.43.0


From 8d4beaea1ae9f8e84a69fa941c31cff9edd6125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 32/48] fix: report the accesses to the fields of a bus of an
 uninitialized component instead of panicking

---
 type_analysis/src/analyzers/type_check.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 3ad2271..0261463 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1090,11 +1090,12 @@ fn check_if_it_is_a_tag(
     let (mut kind, mut tags) = if environment.has_component(symbol){ 
         // we are inside component
         let (name, dim) = environment.get_component_or_break(symbol, file!(), line!()).clone();
-        let current_dim = dim - access_information.0;
-        if current_dim != 0{ // only allowed complete accesses to component
+        if dim != access_information.0 { // only allowed complete accesses to component
             return add_report_and_end(ReportCode::InvalidPartialArray, meta, reports);
         } else if buses_and_signals.len() <= 1 {
             return Result::Ok(false);
+        } else if name.is_none() {
+            return add_report_and_end(ReportCode::UninitializedComponent, meta, reports);
         }
         //current_dim == 0 => component completely defined
         //buses_and_signals.len() > 1 => we are accessing a signal, or a bus and later maybe a tag
-- 
2.43.0


From b3e8f0e88d72effa738e601fd1476bf71a1019e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 33/48] fix: report the signals, buses and components declared
 twice in an instance of a template

---
 constraint_generation/src/execute.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 634bf67..b780d5f 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -156,7 +156,8 @@ enum ExecutionError {
     UnknownTemplate,
     NonValidTagAssignment,
     FalseAssert,
-    ArraySizeTooBig
+    ArraySizeTooBig,
+    SymbolDeclaredTwice
 }
 
 enum ExecutionWarning {
@@ -306,6 +307,18 @@ fn execute_statement(
                                 &runtime.call_trace,
                             )?
                         };
+                    if *xtype != VariableType::Var
+                        && (ExecutionEnvironment::has_signal(&runtime.environment, name)
+                            || ExecutionEnvironment::has_bus(&runtime.environment, name)
+                            || ExecutionEnvironment::has_component(&runtime.environment, name))
+                    {
+                        treat_result_with_execution_error(
+                            Result::Err(ExecutionError::SymbolDeclaredTwice),
+                            meta,
+                            &mut runtime.runtime_errors,
+                            &runtime.call_trace,
+                        )?;
+                    }
                     match xtype {
                         VariableType::Component => {
                             if runtime.block_type == BlockType::Unknown{
@@ -4364,6 +4377,10 @@ fn treat_result_with_execution_error<C>(
                     "There are signal or component declarations depending on the value of a condition that can be unknown during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                SymbolDeclaredTwice => Report::error(
+                    "The names of the signals, buses and components declared in an instance of a template must be different, even if they are declared in different blocks".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 TagAssignmentInUnknown => Report::error(
                     "There are tag assignments depending on the value of a condition that can be unknown during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From f709402de288bd23250ed4b581d36c7375d221fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 34/48] fix: rename the variables that have the name of a
 signal, bus or component of another block

---
 parser/src/syntax_sugar_remover.rs | 184 ++++++++++++++++++++++++++++-
 1 file changed, 181 insertions(+), 3 deletions(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index b852382..b877438 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -6,7 +6,7 @@ use program_structure::file_definition::FileLibrary;
 use program_structure::program_archive::ProgramArchive;
 use program_structure::statement_builders::{build_declaration, build_log_call, build_initialization_block};
 use program_structure::template_data::TemplateData;
-use std::collections::{HashMap, BTreeMap};
+use std::collections::{HashMap, HashSet, BTreeMap};
 use num_bigint::BigInt;
 
 
@@ -33,7 +33,8 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
             init_block.append(&mut stmts);
             let new_body_with_inits = build_block(meta, init_block);
             check_tuples_statement(&new_body_with_inits)?;
-            let new_body = remove_tuples_from_statement(new_body_with_inits)?;
+            let mut new_body = remove_tuples_from_statement(new_body_with_inits)?;
+            rename_variables_with_names_of_template_elements(&mut new_body, t.get_name_of_params());
             t.set_body(new_body);
         } else{
             unreachable!()
@@ -971,4 +972,181 @@ pub fn remove_tuple_from_expression(exp : Expression) -> Expression{
         },
         _ => exp,
     }
-}
\ No newline at end of file
+}
+
+// The variables can have the name of a signal, bus or component that is declared in another block of the template.
+// As these elements belong to the whole template, such variables are renamed.
+fn rename_variables_with_names_of_template_elements(body: &mut Statement, params: &[String]) {
+    let mut names = HashSet::new();
+    collect_template_elements(body, true, &mut names);
+    if let Statement::Block { stmts, .. } = body {
+        let mut block = BlockNames::new(stmts);
+        block.fixed.extend(params.iter().cloned());
+        let mut scopes = vec![block];
+        let mut counter = 0;
+        for s in stmts {
+            rename_variables_in_statement(s, &names, &mut scopes, &mut counter);
+        }
+    }
+}
+
+fn collect_template_elements(stm: &Statement, nested: bool, names: &mut HashSet<String>) {
+    match stm {
+        Statement::Declaration { xtype, name, .. } => {
+            if *xtype != VariableType::Var {
+                names.insert(name.clone());
+            }
+        }
+        Statement::InitializationBlock { initializations, .. } => {
+            for s in initializations {
+                collect_template_elements(s, nested, names);
+            }
+        }
+        Statement::IfThenElse { if_case, else_case, .. } if nested => {
+            collect_template_elements(if_case, nested, names);
+            if let Option::Some(else_stmt) = else_case {
+                collect_template_elements(else_stmt, nested, names);
+            }
+        }
+        Statement::While { stmt, .. } if nested => collect_template_elements(stmt, nested, names),
+        Statement::Block { stmts, .. } if nested => {
+            for s in stmts {
+                collect_template_elements(s, nested, names);
+            }
+        }
+        _ => {}
+    }
+}
+
+struct BlockNames {
+    // Names of the parameters, signals, buses and components declared in the block: another declaration
+    // of one of them in the same block is an error that is reported later
+    fixed: HashSet<String>,
+    // The names that have been already declared in the block with the names they receive
+    declared: HashMap<String, String>,
+}
+
+impl BlockNames {
+    fn new(stmts: &[Statement]) -> BlockNames {
+        let mut fixed = HashSet::new();
+        for s in stmts {
+            collect_template_elements(s, false, &mut fixed);
+        }
+        BlockNames { fixed, declared: HashMap::new() }
+    }
+}
+
+fn rename_symbol(name: &mut String, scopes: &[BlockNames]) {
+    if let Option::Some(new_name) = scopes.iter().rev().find_map(|block| block.declared.get(name)) {
+        *name = new_name.clone();
+    }
+}
+
+fn rename_variables_in_statement(
+    stm: &mut Statement,
+    names: &HashSet<String>,
+    scopes: &mut Vec<BlockNames>,
+    counter: &mut usize,
+) {
+    match stm {
+        Statement::IfThenElse { cond, if_case, else_case, .. } => {
+            rename_variables_in_expression(cond, scopes);
+            rename_variables_in_statement(if_case, names, scopes, counter);
+            if let Option::Some(else_stmt) = else_case {
+                rename_variables_in_statement(else_stmt, names, scopes, counter);
+            }
+        }
+        Statement::While { cond, stmt, .. } => {
+            rename_variables_in_expression(cond, scopes);
+            rename_variables_in_statement(stmt, names, scopes, counter);
+        }
+        Statement::Return { value: exp, .. }
+        | Statement::Assert { arg: exp, .. }
+        | Statement::UnderscoreSubstitution { rhe: exp, .. } => rename_variables_in_expression(exp, scopes),
+        Statement::InitializationBlock { initializations, .. } => {
+            for s in initializations {
+                rename_variables_in_statement(s, names, scopes, counter);
+            }
+        }
+        Statement::Block { stmts, .. } => {
+            scopes.push(BlockNames::new(stmts));
+            for s in stmts {
+                rename_variables_in_statement(s, names, scopes, counter);
+            }
+            scopes.pop();
+        }
+        Statement::Declaration { xtype, name, dimensions, .. } => {
+            for dimension in dimensions {
+                rename_variables_in_expression(dimension, scopes);
+            }
+            if names.contains(name) {
+                let block = scopes.last_mut().unwrap();
+                let new_name = if let Option::Some(previous) = block.declared.get(name) {
+                    previous.clone()
+                } else if *xtype == VariableType::Var && !block.fixed.contains(name) {
+                    *counter += 1;
+                    format!("{}#{}", name, counter)
+                } else {
+                    name.clone()
+                };
+                block.declared.insert(name.clone(), new_name.clone());
+                *name = new_name;
+            }
+        }
+        Statement::Substitution { var, access, rhe, .. } => {
+            rename_symbol(var, scopes);
+            rename_variables_in_access(access, scopes);
+            rename_variables_in_expression(rhe, scopes);
+        }
+        Statement::MultSubstitution { lhe, rhe, .. } | Statement::ConstraintEquality { lhe, rhe, .. } => {
+            rename_variables_in_expression(lhe, scopes);
+            rename_variables_in_expression(rhe, scopes);
+        }
+        Statement::LogCall { args, .. } => {
+            for arg in args {
+                if let LogArgument::LogExp(exp) = arg {
+                    rename_variables_in_expression(exp, scopes);
+                }
+            }
+        }
+    }
+}
+
+fn rename_variables_in_access(access: &mut [Access], scopes: &[BlockNames]) {
+    for acc in access {
+        if let Access::ArrayAccess(index) = acc {
+            rename_variables_in_expression(index, scopes);
+        }
+    }
+}
+
+fn rename_variables_in_expression(exp: &mut Expression, scopes: &[BlockNames]) {
+    use Expression::*;
+    match exp {
+        Variable { name, access, .. } => {
+            rename_symbol(name, scopes);
+            rename_variables_in_access(access, scopes);
+        }
+        InfixOp { lhe, rhe, .. } | UniformArray { value: lhe, dimension: rhe, .. } => {
+            rename_variables_in_expression(lhe, scopes);
+            rename_variables_in_expression(rhe, scopes);
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => rename_variables_in_expression(rhe, scopes),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            rename_variables_in_expression(cond, scopes);
+            rename_variables_in_expression(if_true, scopes);
+            rename_variables_in_expression(if_false, scopes);
+        }
+        Call { args, .. } | BusCall { args, .. } | ArrayInLine { values: args, .. } | Tuple { values: args, .. } => {
+            for arg in args {
+                rename_variables_in_expression(arg, scopes);
+            }
+        }
+        AnonymousComp { params, signals, .. } => {
+            for arg in params.iter_mut().chain(signals.iter_mut()) {
+                rename_variables_in_expression(arg, scopes);
+            }
+        }
+        Number(..) => {}
+    }
+}
-- 
2.43.0


From d123b5265caf89f192d5ba1e672f07ee8737755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 35/48] fix: assign only the common positions of the arrays of
 different sizes

---
 .../intermediate_representation/translate.rs  | 119 +++++++++++++++++-
 1 file changed, 118 insertions(+), 1 deletion(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 04e13d4..e04060f 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -4,6 +4,7 @@ use crate::intermediate_representation::log_bucket::LogBucketArg;
 use crate::intermediate_representation::types::SizeOption;
 use constant_tracking::ConstantTracker;
 use num_bigint_dig::BigInt;
+use num_traits::ToPrimitive;
 use program_structure::ast::*;
 use program_structure::file_definition::FileLibrary;
 use program_structure::utils::environment::VarEnvironment;
@@ -581,8 +582,27 @@ fn translate_while(stmt: Statement, state: &mut State, context: &Context) {
 
 fn translate_substitution(stmt: Statement, state: &mut State, context: &Context) {
     use Statement::Substitution;
-    if let Substitution { meta, var, access, rhe, .. } = stmt {
+    if let Substitution { meta, var, access, op, rhe } = stmt {
         debug_assert!(!meta.get_type_knowledge().is_component());
+        if is_outside_variable(&var, &access, state) {
+            // position of an array expression that is longer than the assigned variable
+            return;
+        }
+        if let Option::Some(length) = rows_of_different_length(&meta, &var, &access, &rhe, state, context) {
+            // the rows of both arrays are not aligned, they are assigned one by one
+            let rhe = into_variable(rhe, state, context);
+            for index in 0..length {
+                let stmt = Substitution {
+                    meta: meta.clone(),
+                    var: var.clone(),
+                    access: access_row(&access, index, &meta),
+                    op,
+                    rhe: variable_row(&rhe, index),
+                };
+                translate_substitution(stmt, state, context);
+            }
+            return;
+        }
         let def = SymbolDef { meta: meta.clone(), symbol: var, acc: access };
         let str_info =
             StoreInfo { prc_symbol: ProcessedSymbol::new(def, state, context), src: rhe };
@@ -598,6 +618,93 @@ fn translate_substitution(stmt: Statement, state: &mut State, context: &Context)
 }
 
 // Start of substitution utils
+fn is_outside_variable(var: &str, access: &[Access], state: &State) -> bool {
+    let info = state.environment.get_variable(var).unwrap();
+    let is_var = !info.is_component && !info.is_bus && !state.signal_to_type.contains_key(var);
+    is_var
+        && access.iter().zip(&info.dimensions).any(|(a, length)| match a {
+            Access::ArrayAccess(Expression::Number(_, index)) => index.to_usize().map_or(true, |i| i >= *length),
+            _ => false,
+        })
+}
+
+fn rows_of_different_length(
+    meta: &Meta,
+    var: &str,
+    access: &[Access],
+    rhe: &Expression,
+    state: &mut State,
+    context: &Context,
+) -> Option<usize> {
+    let src_lengths = match rhe {
+        Expression::Call { id, .. } => context._functions.get(id).cloned(),
+        Expression::Variable { meta, name, access, .. } if check_tag_access(name, access, state).is_none() => {
+            let def = SymbolDef { meta: meta.clone(), symbol: name.clone(), acc: access.clone() };
+            ProcessedSymbol::new(def, state, context).lengths
+        }
+        _ => None,
+    }?;
+    if src_lengths.len() < 2 || !meta.get_type_knowledge().is_var() {
+        return None;
+    }
+    let def = SymbolDef { meta: meta.clone(), symbol: var.to_string(), acc: access.to_vec() };
+    let lengths = ProcessedSymbol::new(def, state, context).lengths?;
+    if lengths.len() == src_lengths.len() && lengths[1..] != src_lengths[1..] {
+        Some(std::cmp::min(lengths[0], src_lengths[0]))
+    } else {
+        None
+    }
+}
+
+fn into_variable(expr: Expression, state: &mut State, context: &Context) -> Expression {
+    if let Expression::Call { ref id, ref meta, .. } = expr {
+        let mut meta = meta.clone();
+        let name = format!("{}.result", id);
+        meta.get_mut_memory_knowledge().set_concrete_dimensions(context._functions[id].clone());
+        meta.get_mut_type_knowledge().set_reduces_to(TypeReduction::Variable);
+        let declaration = Statement::Declaration {
+            meta: meta.clone(),
+            xtype: VariableType::Var,
+            name: name.clone(),
+            dimensions: vec![],
+            is_constant: false,
+            is_anonymous: false,
+        };
+        let assignment = Statement::Substitution {
+            meta: meta.clone(),
+            var: name.clone(),
+            access: vec![],
+            op: AssignOp::AssignVar,
+            rhe: expr,
+        };
+        translate_declaration(declaration, state, context);
+        translate_substitution(assignment, state, context);
+        Expression::Variable { meta, name, access: vec![] }
+    } else {
+        expr
+    }
+}
+
+fn access_row(access: &[Access], index: usize, meta: &Meta) -> Vec<Access> {
+    let mut index_meta = meta.clone();
+    index_meta.get_mut_memory_knowledge().set_concrete_dimensions(vec![]);
+    let mut access = access.to_vec();
+    access.push(Access::ArrayAccess(Expression::Number(index_meta, BigInt::from(index))));
+    access
+}
+
+fn variable_row(variable: &Expression, index: usize) -> Expression {
+    if let Expression::Variable { meta, name, access } = variable {
+        Expression::Variable {
+            meta: meta.clone(),
+            name: name.clone(),
+            access: access_row(access, index, meta),
+        }
+    } else {
+        unreachable!()
+    }
+}
+
 struct StoreInfo {
     prc_symbol: ProcessedSymbol,
     src: Expression,
@@ -1086,6 +1193,7 @@ struct BusAccessInfo{
 struct ProcessedSymbol {
     line: usize,
     length: SizeOption,
+    lengths: Option<Vec<usize>>, // the dimensions of the access, if they are always the same
     symbol_dimensions: Vec<usize>, // the dimensions of last symbol
     symbol_size: usize, // the size of the last symbol
     message_id: usize,
@@ -1270,6 +1378,13 @@ impl ProcessedSymbol {
         let aux_index = std::mem::take(&mut current_index);
         after_indexes.push(aux_index);
 
+        // the dimensions that remain after the accesses
+        let first_lengths = &possible_status.possible_lengths[0];
+        let lengths = if possible_status.possible_lengths.iter().all(|l| l == first_lengths) {
+            Some(first_lengths.iter().rev().cloned().collect())
+        } else {
+            None
+        };
 
         if accessed_component_signal.is_some(){
             // Case accessing a io signal of a subcomponent
@@ -1321,6 +1436,7 @@ impl ProcessedSymbol {
                 line: context.files.get_line(meta.start, meta.get_file_id()).unwrap(),
                 message_id: state.message_id,
                 length: size,
+                lengths,
                 symbol_dimensions: symbol_info.dimensions.clone(),
                 symbol_size: symbol_info.size,
                 symbol: symbol_info,
@@ -1340,6 +1456,7 @@ impl ProcessedSymbol {
                 line: context.files.get_line(meta.start, meta.get_file_id()).unwrap(),
                 message_id: state.message_id,
                 length: SizeOption::Single(with_length),
+                lengths,
                 symbol_dimensions: initial_symbol_dimensions,
                 symbol_size: initial_symbol_size,
                 symbol: symbol_info,
-- 
2.43.0


From 0c2bfbf1803aacb7cda19a8091e3671ec7966699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 36/48] fix: the fields of a bus may be arrays without elements

---
 compiler/src/circuit_design/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 528da20..f8719c6 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -609,7 +609,7 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            let individual_size = if total_array_size == 0 { 0 } else { field_info.size / total_array_size };
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
-- 
2.43.0


From cac74ecb565762324df000142f2d18ba13d55ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 37/48] fix: do not inspect the assignments to bus fields
 selected by unknown indexes

---
 constraint_generation/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index b780d5f..c3ac1c4 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -429,7 +429,7 @@ fn execute_statement(
 
 
             if let Option::Some(node) = actual_node {
-                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && flags.inspect){
+                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && flags.inspect && possible_constraint.is_some()){
                     debug_assert!(possible_constraint.is_some());
                     
                     if *op == AssignOp::AssignConstraintSignal && runtime.block_type == BlockType::Unknown{
-- 
2.43.0


From 1fed877153a0307996771c44ccef687ca0bc24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 38/48] fix: report the components assigned with function calls
 instead of panicking when they are accessed

---
 type_analysis/src/decorators/type_reduction.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index 287bfa8..1f0a3d4 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -246,6 +246,8 @@ fn reduce_types_in_variable(
                 match reduction{
                     Variable => {}, //Check type will return the corresponding error. 
                     Component(ref comp) => {
+                        // the assignments of other calls to components are reported by the type check
+                        let comp = comp.as_ref().filter(|c| program_archive.contains_template(c));
                         if let Some(comp) = comp {
                             let template = program_archive.get_template_data(comp.as_str());
                             let wire = template.get_inputs().get(name).or(template.get_outputs().get(name));
-- 
2.43.0


From b7db7530f261343012f75e7faea358da7e25162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 39/48] fix: the equalities between arrays without elements
 hold

---
 compiler/src/intermediate_representation/translate.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index e04060f..2031e95 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -813,8 +813,11 @@ fn translate_constraint_equality(stmt: Statement, state: &mut State, context: &C
             } else {
                 SizeOption::Single(1)
             };
-            
-            
+            if let SizeOption::Single(0) = length {
+                // the arrays do not have elements
+                return;
+            }
+
             let lhe_pointer = translate_expression(lhe, state, context);
             let rhe_pointer = translate_expression(rhe, state, context);
             let stack = vec![lhe_pointer, rhe_pointer];
-- 
2.43.0


From e43050180941716a65ea451e82a1f586b9947c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 40/48] fix: the simplification does not depend on the order in
 which the clusters finish nor on the order of the hash maps

---
 circom_algebra/src/simplification_utils.rs    | 24 ++++++++++-------
 .../src/constraint_simplification.rs          | 26 +++++++++++--------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/circom_algebra/src/simplification_utils.rs b/circom_algebra/src/simplification_utils.rs
index 6219843..f228f0d 100644
--- a/circom_algebra/src/simplification_utils.rs
+++ b/circom_algebra/src/simplification_utils.rs
@@ -39,7 +39,7 @@ impl<'a> SignalDefinition<'a> {
 }
 
 struct SignalDefinition4<'a> {
-    deleted_symbols: HashSet<usize>,
+    deleted_symbols: HashMap<usize, usize>, // the position in which each one was eliminated
     forbidden: &'a HashSet<usize>,
     order_signals: LinkedList<usize>, // the last eliminated is the first in the list
 }
@@ -49,11 +49,11 @@ impl<'a> SignalDefinition4<'a> {
         !self.forbidden.contains(&k)
     }
     pub fn delete(&mut self, k: usize) {
-        self.deleted_symbols.insert(k);
+        self.deleted_symbols.insert(k, self.order_signals.len());
         self.order_signals.push_front(k);
     }
-    pub fn is_deleted(&self, k: usize) -> bool {
-        self.deleted_symbols.contains(&k)
+    pub fn deletion_position(&self, k: usize) -> Option<usize> {
+        self.deleted_symbols.get(&k).copied()
     }
 }
 
@@ -378,12 +378,15 @@ fn take_signal_3(signals: &SignalDefinition, constraint: &C) -> Option<usize> {
 
 fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformation, constraint: &C) -> Option<usize> {
     let mut ret = Option::None;
+    // the definition of an eliminated signal only uses signals eliminated later:
+    // the first eliminated is the first one to be replaced
+    let mut deleted_ret: Option<(usize, usize)> = Option::None;
     let mut ocurrences_ret: Option<usize> = Option::None;
     for k in constraint.c().keys() {
         if signals.can_be_taken(*k) {
-            if signals.is_deleted(*k) {
-                ret = Some(*k);
-                break;
+            if let Some(position) = signals.deletion_position(*k) {
+                let new_v = deleted_ret.map_or((position, *k), |v| std::cmp::min(v, (position, *k)));
+                deleted_ret = Some(new_v);
             }
             else {
                 let new_ocurrences = info_ocurrences.signal_to_ocurrences.get(k).unwrap();
@@ -407,7 +410,7 @@ fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformati
             }
         }
     }
-    ret
+    deleted_ret.map(|(_, k)| k).or(ret)
 }
 
 
@@ -559,7 +562,7 @@ where
     let non_overlapping: HashMap<usize, S>;
 
     if apply_less_ocurrences{
-        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+        let mut signals = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
         substitution_process_4(&mut signals, &mut constraints, &mut holder, config.num_signals, &field);
         normalized_holder = normalize_substitutions(holder, &field);
         non_overlapping = create_nonoverlapping_substitutions_4(normalized_holder, &signals, &field);
@@ -572,6 +575,7 @@ where
     }
     let mut substitutions = LinkedList::new();
     let mut removed = LinkedList::new();
+    let non_overlapping: BTreeMap<usize, S> = non_overlapping.into_iter().collect();
     for (s, v) in non_overlapping {
         LinkedList::push_back(&mut removed, s);
         LinkedList::push_back(&mut substitutions, v);
@@ -586,7 +590,7 @@ where
 {
     let field = config.field.clone();
     // build the subs using always the complete new version
-    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashSet::new(),  order_signals: LinkedList::new() };
+    let mut signals_4 = SignalDefinition4 { forbidden: config.forbidden.as_ref(), deleted_symbols: HashMap::new(),  order_signals: LinkedList::new() };
     let mut constraints_4 = config.constraints.clone();
     let mut holder_4 = SHNotNormalized::new();
     substitution_process_4(&mut signals_4, &mut constraints_4, &mut holder_4, config.num_signals, &field);
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 09fa2db..0e17e46 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -94,7 +94,7 @@ fn build_clusters(linear: LinkedList<C>, no_vars: usize) -> Vec<Cluster> {
     let mut signal_to_cluster = vec![no_linear; no_vars];
     for constraint in linear {
         if !constraint.is_empty(){
-            let signals = C::take_cloned_signals(&constraint);
+            let signals = C::take_cloned_signals_ordered(&constraint);
             let dest = ClusterArena::len(&arena);
             ClusterArena::push(&mut arena, Some(Cluster::new(constraint, signals.len())));
             Vec::push(&mut cluster_to_current, dest);
@@ -176,7 +176,7 @@ fn eq_cluster_simplification(
         let mut cons = LinkedList::new();
         let mut subs = LinkedList::new();
         let (mut remains, mut min_remains) = (BTreeSet::new(), None);
-        let (mut remove, mut min_remove) = (HashSet::new(), None);
+        let (mut remove, mut min_remove) = (BTreeSet::new(), None);
         for c in cluster.constraints {
             for signal in C::take_cloned_signals_ordered(&c) {
                 if HashSet::contains(&forbidden, &signal) {
@@ -184,7 +184,7 @@ fn eq_cluster_simplification(
                     min_remains = Some(min_remains.map_or(signal, |s| std::cmp::min(s, signal)));
                 } else {
                     min_remove = Some(min_remove.map_or(signal, |s| std::cmp::min(s, signal)));
-                    HashSet::insert(&mut remove, signal);
+                    BTreeSet::insert(&mut remove, signal);
                 }
             }
         }
@@ -194,7 +194,7 @@ fn eq_cluster_simplification(
             signal
         } else {
             let signal = min_remove.unwrap();
-            HashSet::remove(&mut remove, &signal);
+            BTreeSet::remove(&mut remove, &signal);
             signal
         };
 
@@ -235,11 +235,12 @@ fn eq_simplification(
     let mut single_clusters = 0;
     let mut id = 0;
     let mut aux_constraints = vec![LinkedList::new(); clusters.len()];
+    let mut aux_substitutions = vec![LinkedList::new(); clusters.len()];
     for cluster in clusters {
         if Cluster::size(&cluster) == 1 {
-            let (mut subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
+            let (subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
             aux_constraints[id] = cons;
-            LinkedList::append(&mut substitutions, &mut subs);
+            aux_substitutions[id] = subs;
             single_clusters += 1;
         } else {
             let cluster_tx = cluster_tx.clone();
@@ -259,12 +260,13 @@ fn eq_simplification(
     // println!("{} clusters were of size 1", single_clusters);
     ThreadPool::join(&pool);
     for _ in 0..(no_clusters - single_clusters) {
-        let (id, (mut subs, cons)) = simplified_rx.recv().unwrap();
+        let (id, (subs, cons)) = simplified_rx.recv().unwrap();
         aux_constraints[id] = cons;
-        LinkedList::append(&mut substitutions, &mut subs);
+        aux_substitutions[id] = subs;
     }
     for id in 0..no_clusters {
         LinkedList::append(&mut constraints, &mut aux_constraints[id]);
+        LinkedList::append(&mut substitutions, &mut aux_substitutions[id]);
     }
     log_substitutions(&substitutions, substitution_log);
     (substitutions, constraints)
@@ -336,7 +338,7 @@ fn linear_simplification(
             // println!("cluster: {}", id);
             let result = full_simplification(config);
             // println!("End of cluster: {}", id);
-            cluster_tx.send(result).unwrap();
+            cluster_tx.send((id, result)).unwrap();
         };
         ThreadPool::execute(&pool, job);
         let _ = id;
@@ -344,8 +346,10 @@ fn linear_simplification(
     }
     ThreadPool::join(&pool);
 
-    for _ in 0..no_clusters {
-        let mut result = simplified_rx.recv().unwrap();
+    // the clusters can finish in any order
+    let mut results: Vec<_> = simplified_rx.iter().take(no_clusters).collect();
+    results.sort_by_key(|(id, _)| *id);
+    for (_, mut result) in results {
         log_substitutions(&result.substitutions, log);
         LinkedList::append(&mut cons, &mut result.constraints);
         LinkedList::append(&mut substitutions, &mut result.substitutions);
-- 
2.43.0


From c7e6d5a4884214d06c339ecf24be00650ad37be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 41/48] fix: the variables of inner blocks of a function hide
 the constants of the outer ones

---
 .../src/decorators/constants_handler.rs       | 53 +++++++++++++------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/type_analysis/src/decorators/constants_handler.rs b/type_analysis/src/decorators/constants_handler.rs
index 1a42965..6f0baa7 100644
--- a/type_analysis/src/decorators/constants_handler.rs
+++ b/type_analysis/src/decorators/constants_handler.rs
@@ -18,7 +18,8 @@ pub fn handle_function_constants(function: &mut FunctionData) -> ReportCollectio
     for p in function.get_name_of_params() {
         environment.add_variable(p, false);
     }
-    statement_constant_inference(function.get_mut_body(), &mut environment);
+    // the variables of an inner block are decided before the ones of the outer block that they use
+    while statement_constant_inference(function.get_mut_body(), &mut environment) {}
     let reports = statement_invariant_check(function.get_body(), &mut environment);
     expand_statement(function.get_mut_body(), &mut expression_holder);
     reports
@@ -57,20 +58,25 @@ pub fn handle_bus_constants(bus: &mut BusData) -> ReportCollection {
     reports
 }
 
-// Set of functions used to infer the constant tag in variable declarations
-fn statement_constant_inference(stmt: &mut Statement, environment: &mut Constants) {
+// Set of functions used to infer the constant tag in variable declarations.
+// They return true if the tag of some declaration has been removed
+fn statement_constant_inference(stmt: &mut Statement, environment: &mut Constants) -> bool {
     use Statement::*;
     match stmt {
         IfThenElse { if_case, else_case, .. } => {
             if_then_else_constant_inference(if_case, else_case, environment)
         }
-        Substitution { var, .. } => substitution_constant_inference(var, environment),
+        Substitution { var, .. } => {
+            substitution_constant_inference(var, environment);
+            false
+        }
         InitializationBlock { initializations, .. } => {
-            initialization_block_constant_inference(initializations, environment)
+            initialization_block_constant_inference(initializations, environment);
+            false
         }
         While { stmt, .. } => while_constant_inference(stmt, environment),
         Block { stmts, .. } => block_constant_inference(stmts, environment),
-        _ => {}
+        _ => false,
     }
 }
 
@@ -94,8 +100,9 @@ fn initialization_block_constant_inference(
         }
     }
     for s in initializations {
-        if let Declaration { name, xtype, dimensions, .. } = s {
-            let constant_tag = dimensions.is_empty()
+        if let Declaration { name, xtype, dimensions, is_constant, .. } = s {
+            let constant_tag = *is_constant
+                && dimensions.is_empty()
                 && initialized_signals.contains(name)
                 && (*xtype == VariableType::Var);
             declaration_constant_inference(name, constant_tag, environment);
@@ -103,7 +110,7 @@ fn initialization_block_constant_inference(
     }
 }
 
-fn while_constant_inference(stmt: &mut Statement, environment: &mut Constants) {
+fn while_constant_inference(stmt: &mut Statement, environment: &mut Constants) -> bool {
     statement_constant_inference(stmt, environment)
 }
 
@@ -111,18 +118,22 @@ fn if_then_else_constant_inference(
     if_case: &mut Statement,
     else_case: &mut Option<Box<Statement>>,
     environment: &mut Constants,
-) {
-    statement_constant_inference(if_case, environment);
+) -> bool {
+    let mut changed = statement_constant_inference(if_case, environment);
     if let Option::Some(stmt) = else_case {
-        statement_constant_inference(stmt.as_mut(), environment);
+        changed |= statement_constant_inference(stmt.as_mut(), environment);
     }
+    changed
 }
 
-fn apply_inference(stmts: &mut [Statement], environment: &mut Constants) {
+fn apply_inference(stmts: &mut [Statement], environment: &mut Constants) -> bool {
     use Statement::{Declaration, Substitution};
+    let mut changed = false;
     for s in stmts.iter_mut() {
         if let Substitution { var, rhe, .. } = s {
             let was_constant = *environment.get_variable_or_break(var, file!(), line!());
+            // its own initial value is not a constant for a variable
+            *environment.get_mut_variable_or_break(var, file!(), line!()) = false;
             let remains_constant = has_constant_value(rhe, environment);
             *environment.get_mut_variable_or_break(var, file!(), line!()) =
                 was_constant && remains_constant;
@@ -131,23 +142,27 @@ fn apply_inference(stmts: &mut [Statement], environment: &mut Constants) {
     for s in stmts.iter_mut() {
         if let Declaration { name, is_constant, .. } = s {
             let constant_indeed = *environment.get_variable_or_break(name, file!(), line!());
+            changed |= *is_constant && !constant_indeed;
             *is_constant = constant_indeed;
         }
     }
+    changed
 }
 
-fn block_constant_inference(stmts: &mut [Statement], environment: &mut Constants) {
+fn block_constant_inference(stmts: &mut [Statement], environment: &mut Constants) -> bool {
     use Statement::InitializationBlock;
+    let mut changed = false;
     environment.add_variable_block();
     for stmt in stmts.iter_mut() {
-        statement_constant_inference(stmt, environment);
+        changed |= statement_constant_inference(stmt, environment);
     }
     for stmt in stmts.iter_mut() {
         if let InitializationBlock { initializations, .. } = stmt {
-            apply_inference(initializations, environment);
+            changed |= apply_inference(initializations, environment);
         }
     }
     environment.remove_variable_block();
+    changed
 }
 
 // Set of functions whose purpose is to check the array length invariant
@@ -346,6 +361,12 @@ fn expand_initialization_block(
     let mut constants = HashSet::new();
     for s in initializations.iter_mut() {
         expand_statement(s, environment);
+        if let Declaration { meta, name, is_constant, .. } = s {
+            // it hides the constants of the outer blocks with the same name
+            if !*is_constant {
+                environment.add_variable(name, build_variable(meta.clone(), name.clone(), vec![]));
+            }
+        }
     }
     for s in initializations.iter_mut() {
         if let Declaration { name, is_constant, .. } = s {
-- 
2.43.0


From 6e44c908fba59ba46a52a65fbd4962380ba9aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 42/48] fix: keep the conditions with function calls of the
 conditionals and loops without statements

---
 .../src/execution_data/filters.rs             | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execution_data/filters.rs b/constraint_generation/src/execution_data/filters.rs
index 31a3fd1..129c0d0 100644
--- a/constraint_generation/src/execution_data/filters.rs
+++ b/constraint_generation/src/execution_data/filters.rs
@@ -9,11 +9,14 @@ fn clean_dead_code(stmt: &mut Statement, analysis: &Analysis, prime: &String) ->
     use circom_algebra::modular_arithmetic::as_bool;
     use Statement::*;
     match stmt {
-        While { stmt, .. } => clean_dead_code(stmt, analysis, prime),
+        While { cond, stmt, .. } => {
+            clean_dead_code(stmt, analysis, prime) && !has_pending_call(cond, analysis)
+        }
         MultSubstitution { .. } => unreachable!(),
         IfThenElse { if_case, else_case, cond, meta } => {
             let field = program_structure::constants::UsefulConstants::new(prime).get_p().clone();
             let empty_block = Box::new(Block { meta: meta.clone(), stmts: vec![] });
+            let cond_has_call = has_pending_call(cond, analysis);
             let if_case_empty = clean_dead_code(if_case, analysis, prime);
             let else_case_empty =
                 if let Some(case) = else_case { clean_dead_code(case, analysis, prime) } else { true };
@@ -28,7 +31,7 @@ fn clean_dead_code(stmt: &mut Statement, analysis: &Analysis, prime: &String) ->
                 }
                 _ => {}
             }
-            if_case_empty && else_case_empty
+            if_case_empty && else_case_empty && !cond_has_call
         }
         Block { stmts, .. } => {
             let work = std::mem::take(stmts);
@@ -47,6 +50,35 @@ fn clean_dead_code(stmt: &mut Statement, analysis: &Analysis, prime: &String) ->
     }
 }
 
+// the functions called in the witness generation may have asserts that have to be checked
+fn has_pending_call(expr: &Expression, analysis: &Analysis) -> bool {
+    use Expression::*;
+    if Analysis::read_computed(analysis, expr.get_meta().elem_id).is_some() {
+        return false;
+    }
+    match expr {
+        Call { .. } => true,
+        InfixOp { lhe, rhe, .. } => {
+            has_pending_call(lhe, analysis) || has_pending_call(rhe, analysis)
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => has_pending_call(rhe, analysis),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            has_pending_call(cond, analysis)
+                || has_pending_call(if_true, analysis)
+                || has_pending_call(if_false, analysis)
+        }
+        Variable { access, .. } => access.iter().any(|acc| match acc {
+            Access::ArrayAccess(index) => has_pending_call(index, analysis),
+            Access::ComponentAccess(_) => false,
+        }),
+        ArrayInLine { values, .. } => values.iter().any(|v| has_pending_call(v, analysis)),
+        UniformArray { value, dimension, .. } => {
+            has_pending_call(value, analysis) || has_pending_call(dimension, analysis)
+        }
+        _ => false,
+    }
+}
+
 pub fn apply_computed(stmt: &mut Statement, analysis: &Analysis) {
     use Statement::*;
     match stmt {
-- 
2.43.0


From 469486729ce43e699815f04b494a4299be152817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 43/48] fix: run in C++ the circuits without inputs whatever
 keys the input file has

---
 code_producers/src/c_elements/common/main.cpp   | 4 +---
 code_producers/src/c_elements/common64/main.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index e9b1cb7..8a989e6 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -251,9 +251,7 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
+  if (get_main_input_signal_no() == 0){
     ctx->tryRunCircuit();
   }
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 5588bb7..e79e370 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -275,9 +275,7 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
+  if (get_main_input_signal_no() == 0){
     ctx->tryRunCircuit();
   }
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
-- 
2.43.0


From 1b4b1dd2bbb2ca3741127835d173596ea8b6e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 44/48] fix: the arrays of buses without elements may be inputs
 of the main component

---
 compiler/src/circuit_design/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index f8719c6..54cd19f 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -389,7 +389,7 @@ fn main_input_list(main: &TemplateInstance, buses: &FieldMap) -> InputList {
 		for i in &io.dimensions {
 		    elems *= i;
 		}
-		let size:usize = io.size/elems;
+		let size:usize = if elems == 0 { 0 } else { io.size/elems };
 		let accesses = get_accesses(0,&io.dimensions);
 		for (a,s) in &accesses {
 		    let prefix = format!("{}{}",io.name.clone(),a);
-- 
2.43.0


From 47b8e907e9ccf2971c749b960ea2594944f4ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 45/48] fix: traverse each file once when looking for the
 missing custom templates pragmas

---
 parser/src/include_logic.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 8de0106..310f1bc 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -101,7 +101,7 @@ impl IncludesGraph {
     pub fn get_problematic_paths(&self) -> Vec<Vec<PathBuf>> {
         let mut problematic_paths = Vec::new();
         for from in &self.custom_gates_nodes {
-            problematic_paths.append(&mut self.traverse(*from, Vec::new(), HashSet::new()));
+            problematic_paths.append(&mut self.traverse(*from, Vec::new(), &mut HashSet::new()));
         }
         problematic_paths
     }
@@ -110,9 +110,12 @@ impl IncludesGraph {
         &self,
         from: usize,
         path: Vec<PathBuf>,
-        traversed_edges: HashSet<(usize, usize)>,
+        traversed_nodes: &mut HashSet<usize>,
     ) -> Vec<Vec<PathBuf>> {
         let mut problematic_paths = Vec::new();
+        if !traversed_nodes.insert(from) {
+            return problematic_paths;
+        }
         let (from_path, using_pragma) = {
             let node = &self.nodes[from];
             (&node.path, node.custom_gates_pragma)
@@ -127,19 +130,11 @@ impl IncludesGraph {
         }
         if let Some(edges) = self.adjacency.get(from_path) {
             for to in edges {
-                let edge = (from, *to);
-                if !traversed_edges.contains(&edge) {
-                    let new_traversed_edges = {
-                        let mut new_traversed_edges = traversed_edges.clone();
-                        new_traversed_edges.insert(edge);
-                        new_traversed_edges
-                    };
-                    problematic_paths.append(&mut self.traverse(
-                        *to,
-                        new_path.clone(),
-                        new_traversed_edges,
-                    ));
-                }
+                problematic_paths.append(&mut self.traverse(
+                    *to,
+                    new_path.clone(),
+                    traversed_nodes,
+                ));
             }
         }
         problematic_paths
-- 
2.43.0


From f1b6da87da635846002d2a15dc1b69551a7fff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:44 +0000
Subject: [PATCH 46/48] fix: find the inclusions of the main file when its name
 is relative

---
 parser/src/include_logic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 310f1bc..827bab6 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -82,6 +82,8 @@ impl IncludesGraph {
     }
 
     pub fn add_node(&mut self, path: PathBuf, custom_gates_pragma: bool, custom_gates_usage: bool) {
+        // as in the edges, the name of the main file may be relative
+        let path = std::fs::canonicalize(&path).unwrap_or(path);
         self.nodes.push(IncludesNode { path, custom_gates_pragma });
         if custom_gates_usage {
             self.custom_gates_nodes.push(self.nodes.len() - 1);
-- 
2.43.0


From 3e8db7e8780452b4300f4a65e9ded14027e301e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:42 +0000
Subject: [PATCH 47/48] fix: write the uses of custom templates also when the
 main component is in a file without the pragma

---
 parser/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 2bd500a..5e94e13 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -67,6 +67,7 @@ pub fn run_parser(
     let mut file_library = FileLibrary::new();
     let mut definitions = Vec::new();
     let mut main_components = Vec::new();
+    let mut custom_gates_declared = false;
     let mut file_stack = FileStack::new(PathBuf::from(file));
     let mut includes_graph = IncludesGraph::new();
     let mut warnings = Vec::new();
@@ -85,6 +86,7 @@ pub fn run_parser(
         if let Some(main) = program.main_component {
             main_components.push((file_id, main, program.custom_gates));
         }
+        custom_gates_declared |= program.custom_gates_declared;
         includes_graph.add_node(crr_str_file, program.custom_gates, program.custom_gates_declared);
         let includes = program.includes;
         definitions.push((file_id, program.definitions));
@@ -141,7 +143,8 @@ pub fn run_parser(
                 main_id,
                 main_component,
                 definitions,
-                custom_gates,
+                // the main component may be in a file that does not include them
+                custom_gates || custom_gates_declared,
             );
             match result_program_archive {
                 Err((lib, mut rep)) => {
-- 
2.43.0


From 57c3230e25d842d7a7ccc15a8498058bdef17986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 48/48] fix: report the non quadratic expressions assigned to
 underscore instead of panicking

---
 constraint_generation/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index c3ac1c4..edb393b 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -810,6 +810,14 @@ fn execute_statement(
                             &mut runtime.runtime_errors,
                             &runtime.call_trace,
                         )?;
+                        if value_cell.is_nonquadratic() {
+                            treat_result_with_execution_error(
+                                Result::Err(ExecutionError::NonQuadraticConstraint),
+                                meta,
+                                &mut runtime.runtime_errors,
+                                &runtime.call_trace,
+                            )?;
+                        }
                         let constraint_expression = AExpr::transform_expression_to_constraint_form(
                             value_cell,
                             runtime.constants.get_p(),
-- 
2.43.0

