From b7638921779485ce6caea7449bf085ba62d9a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:18 +0000
Subject: [PATCH 001/103] fix: parse 'else if' as a nested if statement

The else branch of an else-if chain was built from the children of the
nested if, which dropped its condition and ran both branches in sequence.
---
 crates/decy-parser/src/extract/statements.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..558a29e 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -671,13 +671,10 @@ pub(crate) extern "C" fn visit_if_children(
                 }
                 if_data.else_block = Some(else_stmts);
             } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
+                // else if chain: the nested if is itself the only statement of the else block
+                if let Some(stmt) = extract_if_stmt(cursor) {
+                    if_data.else_block = Some(vec![stmt]);
                 }
-                if_data.else_block = Some(else_stmts);
             } else {
                 // Single statement in else: else return 0;
                 if let Some(stmt) = extract_single_statement(cursor) {
-- 
2.43.0


From e0f07128e202bf68f8c0b55880a9ffb1bcda0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 002/103] fix: keep the unbraced body of while and compound
 assignments

'while (c) stmt;' lost its body (an endless loop), and an unbraced
'x += y;' body of if, else or for was dropped.
---
 crates/decy-parser/src/extract/expressions.rs | 6 ++++--
 crates/decy-parser/src/extract/statements.rs  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..9f60f6f 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,8 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
+    extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -130,6 +131,7 @@ pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
         CXCursor_SwitchStmt => extract_switch_stmt(cursor),
         CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
         CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
         CXCursor_CallExpr => {
             if let Some(Expression::FunctionCall { function, arguments }) =
                 extract_function_call(cursor)
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 558a29e..0feda6a 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1001,6 +1001,9 @@ pub(crate) extern "C" fn visit_while_children(
                 unsafe {
                     clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
                 }
+            } else if let Some(stmt) = extract_single_statement(cursor) {
+                // Single statement without braces: while (cond) i++;
+                while_data.body.push(stmt);
             }
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From 66c010f4015977094f98b2356d468cb1534138a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 003/103] fix: keep compound assignments in the increment of a
 for loop

'for (...; i += 2)' lost its increment and never ended.
---
 crates/decy-parser/src/extract/statements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 0feda6a..7cd8760 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -806,6 +806,10 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             if let Some(stmt) = extract_inc_dec_stmt(cursor) {
                 stmts.push(stmt);
             }
+        } else if kind == CXCursor_CompoundAssignOperator {
+            if let Some(stmt) = extract_compound_assignment_stmt(cursor) {
+                stmts.push(stmt);
+            }
         }
         stmts
     }
-- 
2.43.0


From 41cfe78afcd8c7aa5c5fd71a20cee60624ca7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 004/103] fix: parse the bitwise and shift compound assignments

Statements such as 'x <<= 2;' and 'x |= m;' were silently dropped.
---
 crates/decy-parser/src/extract/statements.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 7cd8760..34cfc99 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -454,7 +454,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -491,6 +491,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
                         _ => None,
                     };
                     if operator.is_some() {
-- 
2.43.0


From 30684b259aa2cf644221b9a64ab4a4a7b1367f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:08 +0000
Subject: [PATCH 005/103] fix: read hexadecimal, octal and suffixed integer
 literals

0x1F, 7u and 100L became 0, and 017 became 17.
---
 crates/decy-parser/src/extract/expressions.rs | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 9f60f6f..f5f5768 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -353,7 +353,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                value = parse_int_literal(token_str);
             }
             clang_disposeString(token_cxstring);
 
@@ -375,6 +375,27 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::IntLiteral(value))
 }
 
+/// Value of a C integer literal token: decimal, hexadecimal, octal or binary, with an
+/// optional u/l suffix. Values of 32 unsigned bits keep their bit pattern.
+fn parse_int_literal(token: &str) -> i32 {
+    let digits = token.trim_end_matches(['u', 'U', 'l', 'L']);
+    let parsed = if let Some(hex) = digits.strip_prefix("0x").or(digits.strip_prefix("0X")) {
+        i64::from_str_radix(hex, 16)
+    } else if let Some(bin) = digits.strip_prefix("0b").or(digits.strip_prefix("0B")) {
+        i64::from_str_radix(bin, 2)
+    } else if digits.len() > 1 && digits.starts_with('0') {
+        i64::from_str_radix(digits, 8)
+    } else {
+        digits.parse()
+    };
+    match parsed {
+        Ok(value) => {
+            i32::try_from(value).or(u32::try_from(value).map(|bits| bits as i32)).unwrap_or(0)
+        }
+        Err(_) => 0,
+    }
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
-- 
2.43.0


From 1cb74132744ec6ceb3b0012527990f050d6fb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 006/103] fix: keep every statement of a switch label, stacked
 labels and fall-through

Only the first statement after a case label was kept, nested statements were
emitted twice, 'case 1: case 2:' lost the second label, and a label without
a break did not fall through.
---
 crates/decy-parser/src/extract/statements.rs | 203 ++++++++-----------
 1 file changed, 79 insertions(+), 124 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 34cfc99..c6b1973 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,9 +8,8 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
-    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
-    visit_expression,
+    extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
+    extract_variable_ref, try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -1029,16 +1028,7 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
     // 1. Condition expression
     // 2. Body (compound statement containing case/default labels)
 
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let mut switch_data =
-        SwitchData { condition: None, cases: Vec::new(), default_case: None, child_index: 0 };
+    let mut switch_data = SwitchData { condition: None, labels: Vec::new(), child_index: 0 };
 
     let data_ptr = &mut switch_data as *mut SwitchData;
 
@@ -1046,11 +1036,43 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         clang_visitChildren(cursor, visit_switch_children, data_ptr as CXClientData);
     }
 
-    Some(Statement::Switch {
-        condition: switch_data.condition?,
-        cases: switch_data.cases,
-        default_case: switch_data.default_case,
-    })
+    // A label whose statements do not end in a jump falls through to the next label
+    for i in (0..switch_data.labels.len().saturating_sub(1)).rev() {
+        let ends_in_jump = matches!(
+            switch_data.labels[i].body.last(),
+            Some(Statement::Break | Statement::Continue | Statement::Return(_))
+        );
+        if !ends_in_jump {
+            let next_body = switch_data.labels[i + 1].body.clone();
+            switch_data.labels[i].body.extend(next_body);
+        }
+    }
+
+    let mut cases = Vec::new();
+    let mut default_case = None;
+    for label in switch_data.labels {
+        if label.is_default {
+            default_case = Some(label.body);
+        } else {
+            cases.push(SwitchCase { value: label.value, body: label.body });
+        }
+    }
+
+    Some(Statement::Switch { condition: switch_data.condition?, cases, default_case })
+}
+
+/// A case or default label of a switch, in source order, with the statements that follow it.
+struct SwitchLabel {
+    is_default: bool,
+    value: Option<Expression>,
+    body: Vec<Statement>,
+}
+
+/// State shared by the switch statement visitors.
+struct SwitchData {
+    condition: Option<Expression>,
+    labels: Vec<SwitchLabel>,
+    child_index: u32,
 }
 
 /// Visitor callback for switch statement children (condition and body).
@@ -1059,14 +1081,6 @@ pub(crate) extern "C" fn visit_switch_children(
     _parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
     let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
     let kind = unsafe { clang_getCursorKind(cursor) };
 
@@ -1100,122 +1114,63 @@ pub(crate) extern "C" fn visit_switch_body(
     _parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
     let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
     let kind = unsafe { clang_getCursorKind(cursor) };
 
     match kind {
-        CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
-            }
-            CXChildVisit_Continue
+        CXCursor_CaseStmt | CXCursor_DefaultStmt => {
+            extract_switch_label(cursor, kind, &mut switch_data.labels);
         }
-        CXCursor_DefaultStmt => {
-            // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
+        _ => {
+            // clang attaches only the first statement to a label: the others are its siblings
+            if let Some(label) = switch_data.labels.last_mut() {
+                extract_body_statements(cursor, &mut label.body);
             }
-            CXChildVisit_Continue
         }
-        _ => CXChildVisit_Continue,
     }
+    CXChildVisit_Continue
 }
 
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
-
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+/// Extract a case or default label, and the labels directly nested in it (`case 1: case 2:`).
+fn extract_switch_label(cursor: CXCursor, kind: CXCursorKind, labels: &mut Vec<SwitchLabel>) {
+    // Children: the value (case only), then the statement or label that follows
+    extern "C" fn collect_children(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
 
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
+    let mut children: Vec<CXCursor> = Vec::new();
+    let children_ptr = &mut children as *mut Vec<CXCursor>;
     unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
-    }
-
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
-}
-
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+        clang_visitChildren(cursor, collect_children, children_ptr as CXClientData);
     }
 
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
-
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
-            }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
+    let mut rest = children.into_iter();
+    let is_default = kind == CXCursor_DefaultStmt;
+    let value = if is_default { None } else { rest.next().and_then(try_extract_expression) };
+    labels.push(SwitchLabel { is_default, value, body: Vec::new() });
+
+    for child in rest {
+        let child_kind = unsafe { clang_getCursorKind(child) };
+        if matches!(child_kind, CXCursor_CaseStmt | CXCursor_DefaultStmt) {
+            extract_switch_label(child, child_kind, labels);
+        } else if let Some(label) = labels.last_mut() {
+            extract_body_statements(child, &mut label.body);
         }
-        _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
-            }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
-        }
-    }
-}
-
-/// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
-    let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
     }
-
-    Some(body)
 }
 
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+/// Append the statements a cursor stands for, descending into compound and declaration statements.
+fn extract_body_statements(cursor: CXCursor, body: &mut Vec<Statement>) {
+    let body_ptr = body as *mut Vec<Statement>;
+    if visit_statement(cursor, cursor, body_ptr as CXClientData) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
+        }
     }
-
-    CXChildVisit_Continue
 }
-- 
2.43.0


From bd5daf8812368784c7111f97ba415b0934453c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:52 +0000
Subject: [PATCH 007/103] fix: fold the negation of INT_MIN without overflowing

---
 crates/decy-core/src/optimize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..2579ac7 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,7 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                return HirExpression::IntLiteral(v.wrapping_neg());
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From 7ead79a1a129d461eb2364738cf6f1f3e733b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:41 +0000
Subject: [PATCH 008/103] fix: run the increment of a for loop on continue

---
 crates/decy-codegen/src/stmt_gen.rs | 46 +++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..96e7947 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -659,8 +659,9 @@ impl CodeGenerator {
             code.push_str("loop {\n");
         }
 
-        // Generate loop body
-        for stmt in body {
+        // Generate loop body: `continue` in C still runs the increment
+        let body = Self::run_before_continue(body, increment);
+        for stmt in &body {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -687,6 +688,47 @@ impl CodeGenerator {
         code
     }
 
+    /// Put `increment` in front of every `continue` that belongs to the loop with this `body`.
+    ///
+    /// Nested loops keep their own `continue` statements.
+    fn run_before_continue(body: &[HirStatement], increment: &[HirStatement]) -> Vec<HirStatement> {
+        let mut result = Vec::with_capacity(body.len());
+        for stmt in body {
+            match stmt {
+                HirStatement::Continue => {
+                    result.extend_from_slice(increment);
+                    result.push(HirStatement::Continue);
+                }
+                HirStatement::If { condition, then_block, else_block } => {
+                    result.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: Self::run_before_continue(then_block, increment),
+                        else_block: else_block
+                            .as_ref()
+                            .map(|block| Self::run_before_continue(block, increment)),
+                    });
+                }
+                HirStatement::Switch { condition, cases, default_case } => {
+                    result.push(HirStatement::Switch {
+                        condition: condition.clone(),
+                        cases: cases
+                            .iter()
+                            .map(|case| decy_hir::SwitchCase {
+                                value: case.value.clone(),
+                                body: Self::run_before_continue(&case.body, increment),
+                            })
+                            .collect(),
+                        default_case: default_case
+                            .as_ref()
+                            .map(|block| Self::run_before_continue(block, increment)),
+                    });
+                }
+                other => result.push(other.clone()),
+            }
+        }
+        result
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
-- 
2.43.0


From 7ec4ac6a75586bac25e968bab44c77012fa5646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:41 +0000
Subject: [PATCH 009/103] fix: parenthesise a binary operand of unary minus and
 bitwise not

---
 crates/decy-codegen/src/expr_gen/calls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..aabe16b 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,12 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                format!("{}{}", op_str, operand_code)
+                // A unary operator binds tighter than any binary operator
+                if matches!(operand, HirExpression::BinaryOp { .. }) {
+                    format!("{}({})", op_str, operand_code)
+                } else {
+                    format!("{}{}", op_str, operand_code)
+                }
             }
         }
     }
-- 
2.43.0


From af4fa50a21886e2a1a96849cf3b359743c2b6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 010/103] fix: convert an integer for-loop condition to a
 boolean

---
 crates/decy-codegen/src/stmt_gen.rs | 45 +++++++++++++----------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 96e7947..81f740f 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -451,6 +451,24 @@ impl CodeGenerator {
         code
     }
 
+    /// Generate the condition of a loop as a Rust boolean expression.
+    fn generate_loop_condition(&self, condition: &HirExpression, ctx: &TypeContext) -> String {
+        // DECY-138: Check for string iteration pattern: while (*str) → while !str.is_empty()
+        if let Some(str_var) = Self::get_string_deref_var(condition, ctx) {
+            return format!("!{}.is_empty()", str_var);
+        }
+        // DECY-123: If condition is not already boolean, wrap appropriately
+        let cond_code = self.generate_expression_with_context(condition, ctx);
+        if Self::is_boolean_expression(condition) {
+            cond_code
+        } else if matches!(ctx.infer_expression_type(condition), Some(HirType::Pointer(_))) {
+            // DECY-238: Check if condition is a pointer type - use !ptr.is_null()
+            format!("!{}.is_null()", cond_code)
+        } else {
+            format!("({}) != 0", cond_code)
+        }
+    }
+
     /// Generate a while statement.
     fn generate_while_statement(
         &self,
@@ -463,27 +481,7 @@ impl CodeGenerator {
         let mut code = String::new();
 
         // Generate while condition
-        // DECY-138: Check for string iteration pattern: while (*str) → while !str.is_empty()
-        let cond_str = if let Some(str_var) = Self::get_string_deref_var(condition, ctx) {
-            format!("!{}.is_empty()", str_var)
-        } else {
-            // DECY-123: If condition is not already boolean, wrap appropriately
-            let cond_code = self.generate_expression_with_context(condition, ctx);
-            if Self::is_boolean_expression(condition) {
-                cond_code
-            } else {
-                // DECY-238: Check if condition is a pointer type - use !ptr.is_null()
-                if let Some(cond_type) = ctx.infer_expression_type(condition) {
-                    if matches!(cond_type, HirType::Pointer(_)) {
-                        format!("!{}.is_null()", cond_code)
-                    } else {
-                        format!("({}) != 0", cond_code)
-                    }
-                } else {
-                    format!("({}) != 0", cond_code)
-                }
-            }
-        };
+        let cond_str = self.generate_loop_condition(condition, ctx);
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
@@ -651,10 +649,7 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            code.push_str(&format!("while {} {{\n", self.generate_loop_condition(cond, ctx)));
         } else {
             code.push_str("loop {\n");
         }
-- 
2.43.0


From 9d0285fcd698daadd489a0bc5161227e55981ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:38 +0000
Subject: [PATCH 011/103] fix: keep an unknown conversion after non-ASCII text
 in a printf format

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..89867d2 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -844,13 +844,13 @@ impl CodeGenerator {
                         'p' => "{:p}".to_string(),
                         _ => {
                             // Unknown specifier, keep original
-                            input[start..i].to_string()
+                            chars[start..i].iter().collect()
                         }
                     };
                     result.push_str(&rust_spec);
                 } else {
                     // Incomplete format specifier at end of string
-                    result.push_str(&input[start..]);
+                    result.extend(&chars[start..]);
                 }
             } else {
                 result.push(chars[i]);
-- 
2.43.0


From 21e586a039b2f24a065daaedf03816a2650fc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:38 +0000
Subject: [PATCH 012/103] fix: escape braces of a printf format

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 89867d2..d23d096 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -853,6 +853,10 @@ impl CodeGenerator {
                     result.extend(&chars[start..]);
                 }
             } else {
+                // Braces are format syntax in Rust but plain text in C
+                if matches!(chars[i], '{' | '}') {
+                    result.push(chars[i]);
+                }
                 result.push(chars[i]);
                 i += 1;
             }
-- 
2.43.0


From e25d2ee19dae535913f300df55a2d2fb826c480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:38 +0000
Subject: [PATCH 013/103] fix: escape quote and backslash character literals

---
 crates/decy-codegen/src/expr_gen/literals.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..ce9d822 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -119,6 +119,8 @@ impl CodeGenerator {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\'' || val == b'\\' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
-- 
2.43.0


From f5700f5d68d261477703439fa69759dc499fc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 014/103] fix: print Rust strings for %s instead of reading
 past their end

---
 crates/decy-codegen/src/expr_gen/calls.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index aabe16b..5051292 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -485,6 +485,15 @@ impl CodeGenerator {
                         let arg_code = self.generate_expression_with_context(a, ctx);
                         if s_positions.contains(&i) && !Self::is_string_ternary(a) {
                             let arg_type = ctx.infer_expression_type(a);
+                            // A Rust string is not NUL-terminated: print it as it is
+                            if matches!(a, HirExpression::StringLiteral(_))
+                                || matches!(
+                                    arg_type,
+                                    Some(HirType::StringReference | HirType::StringLiteral)
+                                )
+                            {
+                                return arg_code;
+                            }
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
                             if is_raw_pointer || is_function_call {
-- 
2.43.0


From a09768898df3db9e0580cfd08186e2f512b2a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:15 +0000
Subject: [PATCH 015/103] fix: tell the parts of a for header apart by its
 semicolons

---
 crates/decy-parser/src/extract/statements.rs | 74 ++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index c6b1973..3f8e8c2 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -692,6 +692,58 @@ pub(crate) extern "C" fn visit_if_children(
     }
 }
 
+/// File offset at which a source range starts.
+fn start_offset(range: CXSourceRange) -> u32 {
+    let mut offset = 0;
+    unsafe {
+        clang_getExpansionLocation(
+            clang_getRangeStart(range),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
+
+/// File offsets of the two semicolons in the header of a for statement.
+///
+/// Returns `None` when the header is not spelled out in the source (e.g. it comes from a macro).
+fn for_header_semicolons(cursor: CXCursor) -> Option<[u32; 2]> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    if tu.is_null() {
+        return None;
+    }
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    let mut semicolons = Vec::new();
+    let mut depth = 0;
+
+    // SAFETY: the tokens are only read before they are disposed of
+    unsafe {
+        clang_tokenize(tu, clang_getCursorExtent(cursor), &mut tokens, &mut num_tokens);
+        for i in 0..num_tokens {
+            let token = *tokens.add(i as usize);
+            let spelling = clang_getTokenSpelling(tu, token);
+            match CStr::from_ptr(clang_getCString(spelling)).to_bytes() {
+                b"(" => depth += 1,
+                b")" => depth -= 1,
+                b";" if depth == 1 => {
+                    semicolons.push(start_offset(clang_getTokenExtent(tu, token)))
+                }
+                _ => {}
+            }
+            clang_disposeString(spelling);
+            if depth == 0 && i > 0 {
+                break; // end of the header
+            }
+        }
+        clang_disposeTokens(tu, tokens, num_tokens);
+    }
+    semicolons.try_into().ok()
+}
+
 /// Extract a for loop statement.
 pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // DECY-200: Two-pass approach to handle for loops with empty parts
@@ -814,6 +866,8 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             if let Some(stmt) = extract_compound_assignment_stmt(cursor) {
                 stmts.push(stmt);
             }
+        } else if let Some(stmt) = extract_single_statement(cursor) {
+            stmts.push(stmt);
         }
         stmts
     }
@@ -843,6 +897,26 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // Process children before body
     let pre_body = &collector.children[..body_idx];
 
+    // The semicolons of the header tell which part each child is
+    if let Some(semicolons) = for_header_semicolons(cursor) {
+        for child in pre_body {
+            let offset = start_offset(unsafe { clang_getCursorExtent(child.cursor) });
+            match semicolons.iter().filter(|&&semicolon| semicolon < offset).count() {
+                0 if child.kind == CXCursor_DeclStmt => {
+                    // DECY-224: Collect ALL declarations
+                    let ptr = &mut init as *mut Vec<Statement>;
+                    unsafe {
+                        clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
+                    }
+                }
+                0 => init.extend(extract_increment_stmts(child.cursor)),
+                1 => condition = extract_expression_from_cursor(child.cursor),
+                _ => increment.extend(extract_increment_stmts(child.cursor)),
+            }
+        }
+        return Some(Statement::For { init, condition, increment, body });
+    }
+
     match pre_body.len() {
         0 => {
             // for (;;) - infinite loop with no init/condition/increment
-- 
2.43.0


From ad81db1cd9a0990480ff5b4ba9891bc031d8ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:35 +0000
Subject: [PATCH 016/103] fix: read a ternary condition of if and while

---
 crates/decy-parser/src/extract/expressions.rs |  1 +
 crates/decy-parser/src/extract/statements.rs  | 44 +++----------------
 2 files changed, 6 insertions(+), 39 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index f5f5768..a4aafd6 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -109,6 +109,7 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
+        116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         _ => {
             let mut expr: Option<Expression> = None;
             let expr_ptr = &mut expr as *mut Option<Expression>;
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 3f8e8c2..dfe715a 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -6,10 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::expressions::{
-    extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
-    extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
-    extract_variable_ref, try_extract_expression, visit_binary_operand, visit_expression,
+    extract_array_index, extract_binary_op, extract_binary_operator,
+    extract_expression_from_cursor, extract_field_access, extract_single_statement,
+    try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -626,24 +625,7 @@ pub(crate) extern "C" fn visit_if_children(
         0 => {
             // First child: condition expression
             // The cursor itself IS the condition, extract it directly
-            if_data.condition = match kind {
-                CXCursor_BinaryOperator => extract_binary_op(cursor),
-                CXCursor_IntegerLiteral => extract_int_literal(cursor),
-                107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
-                110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-                CXCursor_DeclRefExpr => extract_variable_ref(cursor),
-                CXCursor_CallExpr => extract_function_call(cursor),
-                CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    // For other expression types, try visiting children
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
-            };
+            if_data.condition = extract_expression_from_cursor(cursor);
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
@@ -1056,23 +1038,7 @@ pub(crate) extern "C" fn visit_while_children(
         0 => {
             // First child: condition expression
             // The cursor itself IS the condition, extract it directly
-            while_data.condition = match kind {
-                CXCursor_BinaryOperator => extract_binary_op(cursor),
-                CXCursor_IntegerLiteral => extract_int_literal(cursor),
-                107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
-                110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-                CXCursor_DeclRefExpr => extract_variable_ref(cursor),
-                CXCursor_CallExpr => extract_function_call(cursor),
-                CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
-            };
+            while_data.condition = extract_expression_from_cursor(cursor);
             while_data.child_index += 1;
             CXChildVisit_Continue
         }
-- 
2.43.0


From cfcc2ec8cab1ce14963cdf769530331697e1583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:40 +0000
Subject: [PATCH 017/103] fix: use comparison and logical results as integers
 where C does

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 31 +++++++++++++------
 crates/decy-codegen/src/expr_gen/calls.rs     | 13 +++++++-
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..ca5f19b 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -54,17 +54,28 @@ impl CodeGenerator {
         let right_code = self.generate_expression_with_context(right, ctx);
         let op_str = Self::binary_operator_to_string(op);
 
-        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
-            format!("({})", left_code)
-        } else {
-            left_code.clone()
-        };
-
-        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) {
-            format!("({})", right_code)
-        } else {
-            right_code.clone()
+        let is_arithmetic = matches!(
+            op,
+            BinaryOperator::Add
+                | BinaryOperator::Subtract
+                | BinaryOperator::Multiply
+                | BinaryOperator::Divide
+                | BinaryOperator::Modulo
+                | BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+        );
+        let operand_str = |operand: &HirExpression, code: &str| {
+            if is_arithmetic && Self::is_boolean_expression(operand) {
+                // Comparisons and logical operators are int in C, bool in Rust
+                format!("(({}) as i32)", code)
+            } else if matches!(operand, HirExpression::BinaryOp { .. }) {
+                format!("({})", code)
+            } else {
+                code.to_string()
+            }
         };
+        let left_str = operand_str(left, &left_code);
+        let right_str = operand_str(right, &right_code);
 
         if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
             if let Some(result) =
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 5051292..835f345 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -119,7 +119,10 @@ impl CodeGenerator {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 // A unary operator binds tighter than any binary operator
-                if matches!(operand, HirExpression::BinaryOp { .. }) {
+                if Self::is_boolean_expression(operand) {
+                    // Comparisons and logical operators are int in C, bool in Rust
+                    format!("{}(({}) as i32)", op_str, operand_code)
+                } else if matches!(operand, HirExpression::BinaryOp { .. }) {
                     format!("{}({})", op_str, operand_code)
                 } else {
                     format!("{}{}", op_str, operand_code)
@@ -501,6 +504,9 @@ impl CodeGenerator {
                             } else {
                                 Self::wrap_with_cstr(&arg_code)
                             }
+                        } else if Self::is_boolean_expression(a) {
+                            // Comparisons and logical operators are int in C, bool in Rust
+                            format!("({}) as i32", arg_code)
                         } else {
                             arg_code
                         }
@@ -785,6 +791,11 @@ impl CodeGenerator {
                         if let HirExpression::CharLiteral(c) = arg {
                             return Some(format!("{}i32", *c as i32));
                         }
+                        // Comparisons and logical operators are int in C, bool in Rust
+                        if Self::is_boolean_expression(arg) {
+                            let arg_code = self.generate_expression_with_context(arg, ctx);
+                            return Some(format!("({}) as i32", arg_code));
+                        }
                     }
 
                     let is_string_param = param_type
-- 
2.43.0


From 031133ed7ba2c347aafe95e707e4d03602f00c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:52 +0000
Subject: [PATCH 018/103] fix: drop the length argument of a call only where
 the signature drops the parameter

---
 crates/decy-core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..c688efd 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -809,9 +809,11 @@ fn build_slice_func_arg_mappings(
         .filter_map(|func| {
             let mut mappings = Vec::new();
             let params = func.parameters();
+            // The signature only drops the length of what it takes as a slice
+            let dataflow_graph = DataflowAnalyzer::new().analyze(func);
 
             for (i, param) in params.iter().enumerate() {
-                if matches!(param.param_type(), decy_hir::HirType::Pointer(_))
+                if dataflow_graph.is_array_parameter(param.name()) == Some(true)
                     && i + 1 < params.len()
                 {
                     let next_param = &params[i + 1];
-- 
2.43.0


From cb11f6516d2beae1e5f3cb194bcf0369321af58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 019/103] fix: translate do-while loops

---
 crates/decy-parser/src/extract/expressions.rs |  9 ++--
 crates/decy-parser/src/extract/mod.rs         | 13 ++++--
 crates/decy-parser/src/extract/statements.rs  | 44 +++++++++++++++++++
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index a4aafd6..1057fb7 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,9 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -144,7 +144,8 @@ pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
         }
         CXCursor_BreakStmt => Some(Statement::Break),
         CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
+        CXCursor_DoStmt => extract_do_stmt(cursor),
+        CXCursor_NullStmt => None,
         _ => None,
     }
 }
diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..71646b3 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -321,6 +321,13 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            if let Some(stmt) = extract_do_stmt(cursor) {
+                statements.push(stmt);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index dfe715a..6d42b1c 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1018,6 +1018,50 @@ pub(crate) fn extract_while_stmt(cursor: CXCursor) -> Option<Statement> {
     Some(Statement::While { condition: while_data.condition?, body: while_data.body })
 }
 
+/// Extract a do-while loop from a cursor.
+///
+/// `do body while (cond);` becomes `for (;; if (!cond) break) body`, so that the condition
+/// is tested after every iteration, including one left with `continue`.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
+    extern "C" fn collect_children(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
+    }
+
+    let mut children: Vec<CXCursor> = Vec::new();
+    unsafe {
+        clang_visitChildren(cursor, collect_children, &mut children as *mut _ as CXClientData);
+    }
+    let [body_cursor, condition_cursor] = children[..] else {
+        return None;
+    };
+
+    let mut body = Vec::new();
+    if unsafe { clang_getCursorKind(body_cursor) } == CXCursor_CompoundStmt {
+        unsafe {
+            clang_visitChildren(body_cursor, visit_statement, &mut body as *mut _ as CXClientData);
+        }
+    } else if let Some(stmt) = extract_single_statement(body_cursor) {
+        body.push(stmt);
+    }
+
+    let condition = extract_expression_from_cursor(condition_cursor)?;
+    let leave = Statement::If {
+        condition: Expression::UnaryOp {
+            op: UnaryOperator::LogicalNot,
+            operand: Box::new(condition),
+        },
+        then_block: vec![Statement::Break],
+        else_block: None,
+    };
+    Some(Statement::For { init: Vec::new(), condition: None, increment: vec![leave], body })
+}
+
 /// Visitor for while loop children.
 pub(crate) extern "C" fn visit_while_children(
     cursor: CXCursor,
-- 
2.43.0


From 75e24e49578591f43d5b5dcd0c994640dd9c32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:28 +0000
Subject: [PATCH 020/103] fix: honour the '-' flag and %c in printf formats

---
 crates/decy-codegen/src/expr_gen/calls.rs |  4 ++++
 crates/decy-codegen/src/expr_gen/misc.rs  | 28 +++++++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 835f345..4f23512 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -481,6 +481,7 @@ impl CodeGenerator {
                 format!("print!({})", rust_fmt)
             } else {
                 let s_positions = Self::find_string_format_positions(&fmt);
+                let c_positions = Self::find_format_positions(&fmt, 'c');
                 let args: Vec<String> = arguments[1..]
                     .iter()
                     .enumerate()
@@ -504,6 +505,9 @@ impl CodeGenerator {
                             } else {
                                 Self::wrap_with_cstr(&arg_code)
                             }
+                        } else if c_positions.contains(&i) {
+                            // %c prints the character, not its code
+                            format!("({}) as u8 as char", arg_code)
                         } else if Self::is_boolean_expression(a) {
                             // Comparisons and logical operators are int in C, bool in Rust
                             format!("({}) as i32", arg_code)
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index d23d096..aa8e52e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -741,16 +741,19 @@ impl CodeGenerator {
                 let start = i;
                 i += 1; // skip %
 
-                let mut flags = String::new();
+                let mut zero_pad = false;
+                let mut left_align = false;
                 let mut width = String::new();
                 let mut precision = String::new();
 
                 // Parse flags: -, +, space, #, 0
                 while i < chars.len() && "-+ #0".contains(chars[i]) {
-                    if chars[i] == '0' {
-                        flags.push('0'); // zero-padding
+                    match chars[i] {
+                        '0' => zero_pad = true,
+                        '-' => left_align = true,
+                        // Skip other flags for now (+ is sign, etc.)
+                        _ => {}
                     }
-                    // Skip other flags for now (- is left-align, + is sign, etc.)
                     i += 1;
                 }
 
@@ -760,6 +763,15 @@ impl CodeGenerator {
                     i += 1;
                 }
 
+                // Rust aligns numbers like C does, except for the '-' flag (which overrides '0')
+                let mut flags = String::new();
+                if left_align && !width.is_empty() {
+                    flags.push('<');
+                }
+                if zero_pad && !left_align {
+                    flags.push('0');
+                }
+
                 // Parse precision
                 if i < chars.len() && chars[i] == '.' {
                     i += 1;
@@ -868,6 +880,12 @@ impl CodeGenerator {
     /// DECY-187: Find positions of %s format specifiers in a format string.
     /// Returns 0-indexed positions corresponding to printf arguments.
     pub(crate) fn find_string_format_positions(fmt: &str) -> Vec<usize> {
+        Self::find_format_positions(fmt, 's')
+    }
+
+    /// Find positions of the format specifiers with the given conversion.
+    /// Returns 0-indexed positions corresponding to printf arguments.
+    pub(crate) fn find_format_positions(fmt: &str, conversion: char) -> Vec<usize> {
         let mut positions = Vec::new();
         let mut arg_index = 0;
         let trimmed = fmt.trim();
@@ -917,7 +935,7 @@ impl CodeGenerator {
                 // Now we should be at the conversion specifier
                 if j < chars.len() {
                     let specifier = chars[j];
-                    if specifier == 's' {
+                    if specifier == conversion {
                         positions.push(arg_index);
                     }
                     // Count this as an argument position (for d, i, u, f, s, c, p, x, X, o, e, E, g, G, n)
-- 
2.43.0


From f751119e6e82b6bae80ca3d4d998ee59fc92d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:23 +0000
Subject: [PATCH 021/103] fix: keep an arithmetic cast of an operand

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs |  3 ++-
 crates/decy-codegen/src/lib.rs                 |  1 +
 crates/decy-parser/src/extract/expressions.rs  | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index ca5f19b..bd41d37 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -68,7 +68,8 @@ impl CodeGenerator {
             if is_arithmetic && Self::is_boolean_expression(operand) {
                 // Comparisons and logical operators are int in C, bool in Rust
                 format!("(({}) as i32)", code)
-            } else if matches!(operand, HirExpression::BinaryOp { .. }) {
+            } else if matches!(operand, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
+            {
                 format!("({})", code)
             } else {
                 code.to_string()
diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 13b2084..bb91385 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -253,6 +253,7 @@ impl TypeContext {
             HirExpression::IntLiteral(_) => Some(HirType::Int),
             HirExpression::FloatLiteral(_) => Some(HirType::Double), // C float literals default to double
             HirExpression::CharLiteral(_) => Some(HirType::Char),
+            HirExpression::Cast { target_type, .. } => Some(target_type.clone()),
             HirExpression::Dereference(inner) => {
                 // If inner is *mut T, then *inner is T
                 // DECY-123: Also handle Box<T> and &T/&mut T deref → T
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 1057fb7..8ba14ea 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -727,6 +727,22 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        117 => {
+            // CXCursor_CStyleCastExpr - an arithmetic cast changes the operation: (double)a / b
+            match extract_cast(cursor) {
+                Some(
+                    expr @ Expression::Cast {
+                        target_type:
+                            Type::Int | Type::UnsignedInt | Type::Char | Type::Float | Type::Double,
+                        ..
+                    },
+                ) => {
+                    operands.push(expr);
+                    CXChildVisit_Continue
+                }
+                _ => CXChildVisit_Recurse,
+            }
+        }
         _ => CXChildVisit_Recurse,
     }
 }
-- 
2.43.0


From fc5e4debcedc4355937642239a555083ee5f4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 022/103] fix: read the escaped quote character literal

---
 crates/decy-parser/src/extract/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 8ba14ea..28ffe1d 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -520,7 +520,8 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                let inner = token_str.strip_prefix('\'').unwrap_or(token_str);
+                let inner = inner.strip_suffix('\'').unwrap_or(inner);
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
-- 
2.43.0


From 35abc84c546f15880ca5f38c88b1a68149954d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:28 +0000
Subject: [PATCH 023/103] fix: keep the braced initializer of a global array

---
 crates/decy-parser/src/extract/types.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index ee6b9b5..283ec63 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -5,7 +5,7 @@ use clang_sys::*;
 use std::ffi::CStr;
 use std::ptr;
 
-use super::expressions::visit_variable_initializer;
+use super::expressions::{extract_init_list, visit_variable_initializer};
 use super::visit_statement;
 
 pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
@@ -470,6 +470,21 @@ pub(crate) fn extract_enum(cursor: CXCursor) -> Option<Enum> {
     Some(Enum::new(name, variants))
 }
 
+/// Visitor callback for the braced initializer of a variable.
+extern "C" fn visit_braced_initializer(
+    cursor: CXCursor,
+    _parent: CXCursor,
+    client_data: CXClientData,
+) -> CXChildVisitResult {
+    // CXCursor_InitListExpr
+    if unsafe { clang_getCursorKind(cursor) } == 119 {
+        let initializer = unsafe { &mut *(client_data as *mut Option<Expression>) };
+        *initializer = extract_init_list(cursor);
+        return CXChildVisit_Break;
+    }
+    CXChildVisit_Continue
+}
+
 /// Extract macro definition from a clang cursor.
 ///
 /// Extract variable declaration information from a clang cursor.
@@ -512,6 +527,8 @@ pub(crate) fn extract_variable(cursor: CXCursor) -> Option<Variable> {
 
     unsafe {
         clang_visitChildren(cursor, visit_variable_initializer, initializer_ptr as CXClientData);
+        // A braced initializer comes after the array size, which is a child as well
+        clang_visitChildren(cursor, visit_braced_initializer, initializer_ptr as CXClientData);
     }
 
     Some(Variable::new_with_storage_class(
-- 
2.43.0


From 4550b9f4803275d1635c70f5e7ed4767d4d925a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:55 +0000
Subject: [PATCH 024/103] fix: pass fixed-size array parameters by reference
 and default global structs field by field

---
 crates/decy-core/src/lib.rs             | 1 +
 crates/decy-parser/src/extract/types.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c688efd..2f52749 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -971,6 +971,7 @@ fn generate_uninitialized_global_code(
                         format!("[{}; 0]", elem_default)
                     }
                 }
+                decy_hir::HirType::Struct(sname) => const_struct_literal(sname, hir_structs),
                 _ => "Default::default()".to_string(),
             };
             Some(format!("static mut {}: {} = {};\n", name, type_str, default_value))
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index 283ec63..5d095c1 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -52,6 +52,12 @@ pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
                     false
                 }
             };
+            // C passes an array parameter by reference whether or not its size is spelled out
+            let param_type = match param_type {
+                Type::Array { element_type, .. } => Type::Array { element_type, size: None },
+                other => other,
+            };
+
             parameters.push(Parameter::new_with_const(param_name, param_type, is_pointee_const));
         }
     }
-- 
2.43.0


From 5fab2be5ad72c5ba0dc6d2fc9c12c51c82d284ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:31 +0000
Subject: [PATCH 025/103] fix: keep nested braces of an initializer

---
 crates/decy-parser/src/extract/expressions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 28ffe1d..6ab0c02 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1796,6 +1796,14 @@ pub(crate) extern "C" fn visit_init_list_children(
         return CXChildVisit_Continue;
     }
 
+    // Nested braces: a row of a matrix, a struct in an array, ... (CXCursor_InitListExpr)
+    if kind == 119 {
+        if let Some(expr) = extract_init_list(cursor) {
+            initializers.push(expr);
+        }
+        return CXChildVisit_Continue;
+    }
+
     // DECY-133b: Handle designated initializers
     // Array: [idx] = value  → UnexposedExpr with children [IntLiteral(idx), value]
     // Struct: .field = value → UnexposedExpr with children [MemberRef, value]
-- 
2.43.0


From 92745c976ee891376d482a3b0f222c3a8571b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 026/103] fix: zero the rest of an array initialised with one
 element

---
 crates/decy-codegen/src/expr_gen/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index aa8e52e..b98c358 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -303,7 +303,7 @@ impl CodeGenerator {
                         .collect();
 
                     if let Some(n) = size {
-                        if elements.len() == 1 {
+                        if matches!(initializers, [HirExpression::IntLiteral(0)]) {
                             format!("[{}; {}]", elements[0], *n)
                         } else if elements.len() < *n {
                             let mut padded = elements.clone();
-- 
2.43.0


From dc10cb8ea3ca38755ebc826a3955d8faa9c364dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 027/103] fix: close nested unsafe blocks where they end in a
 global assignment

---
 crates/decy-codegen/src/stmt_gen.rs | 53 +++++++++++++----------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 81f740f..4657b42 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -588,33 +588,15 @@ impl CodeGenerator {
             let target_type = ctx.get_type(target);
             let value_code = self.generate_expression_with_target_type(value, ctx, target_type);
 
-            // DECY-261: Helper to strip nested unsafe blocks to avoid redundancy
-            fn strip_nested_unsafe(code: &str) -> String {
-                // Iteratively strip all unsafe { } wrappers from the code
-                let mut result = code.to_string();
-                while result.contains("unsafe { ") {
-                    result = result.replace("unsafe { ", "").replace(" }", "");
-                    // Handle case where there might be multiple closings
-                    // Simple approach: strip pattern "unsafe { X }" → "X"
-                }
-                // More precise: use regex-like matching for simple cases
-                result = code.replace("unsafe { ", "").replacen(
-                    " }",
-                    "",
-                    code.matches("unsafe { ").count(),
-                );
-                result
-            }
-
             // DECY-241: Handle errno assignment specially
             if target == "errno" {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 return format!("unsafe {{ ERRNO = {}; }}", clean_value);
             }
             // DECY-220: Wrap global variable assignment in unsafe block
             // DECY-261: Strip nested unsafe from value_code to avoid redundancy
             if ctx.is_global(target) {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 format!("unsafe {{ {} = {}; }}", target, clean_value)
             } else {
                 format!("{} = {};", target, value_code)
@@ -1002,15 +984,7 @@ impl CodeGenerator {
             // DECY-261: Check if object is a global struct - use single unsafe block
             if let HirExpression::Variable(name) = object {
                 if ctx.is_global(name) {
-                    // Strip nested unsafe from value_code
-                    fn strip_nested_unsafe(code: &str) -> String {
-                        code.replace("unsafe { ", "").replacen(
-                            " }",
-                            "",
-                            code.matches("unsafe { ").count(),
-                        )
-                    }
-                    let clean_value = strip_nested_unsafe(&value_code);
+                    let clean_value = Self::strip_nested_unsafe(&value_code);
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
             }
@@ -1018,4 +992,25 @@ impl CodeGenerator {
             format!("{}.{} = {};", obj_code, escaped_field, value_code)
         }
     }
+
+    /// DECY-261: Strip nested `unsafe { X }` blocks down to `X`, each with its own closing brace.
+    fn strip_nested_unsafe(code: &str) -> String {
+        let mut result = code.to_string();
+        while let Some(start) = result.find("unsafe { ") {
+            let body = start + "unsafe { ".len();
+            let mut depth = 1;
+            let close = result[body..].char_indices().find_map(|(i, c)| {
+                match c {
+                    '{' => depth += 1,
+                    '}' => depth -= 1,
+                    _ => {}
+                }
+                (depth == 0).then_some(body + i)
+            });
+            let Some(close) = close else { break };
+            let inner = result[body..close].trim_end().to_string();
+            result.replace_range(start..=close, &inner);
+        }
+        result
+    }
 }
-- 
2.43.0


From b44f500099fb6c1685b489349d433a9ac5c3b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 028/103] fix: read sizeof under a cast

---
 crates/decy-parser/src/extract/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 6ab0c02..059962f 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -31,6 +31,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         118 => extract_compound_literal(cursor), // CXCursor_CompoundLiteralExpr
+        136 => extract_sizeof(cursor),         // CXCursor_UnaryExpr
         111 => {
             // CXCursor_ParenExpr - parenthesized expression like (a > b)
             // Recurse into children to extract the inner expression
-- 
2.43.0


From 405399272e0383cc3d019220d6f07e95ef26162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 029/103] fix: keep a ternary operand, its boolean branches and
 unary operands together

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  8 +++++--
 crates/decy-codegen/src/expr_gen/calls.rs     |  8 ++++++-
 crates/decy-codegen/src/expr_gen/misc.rs      | 21 +++++++++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index bd41d37..eeacf9d 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -68,8 +68,12 @@ impl CodeGenerator {
             if is_arithmetic && Self::is_boolean_expression(operand) {
                 // Comparisons and logical operators are int in C, bool in Rust
                 format!("(({}) as i32)", code)
-            } else if matches!(operand, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
-            {
+            } else if matches!(
+                operand,
+                HirExpression::BinaryOp { .. }
+                    | HirExpression::Cast { .. }
+                    | HirExpression::Ternary { .. }
+            ) {
                 format!("({})", code)
             } else {
                 code.to_string()
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 4f23512..2f359c3 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -122,7 +122,13 @@ impl CodeGenerator {
                 if Self::is_boolean_expression(operand) {
                     // Comparisons and logical operators are int in C, bool in Rust
                     format!("{}(({}) as i32)", op_str, operand_code)
-                } else if matches!(operand, HirExpression::BinaryOp { .. }) {
+                } else if matches!(
+                    operand,
+                    HirExpression::BinaryOp { .. }
+                        | HirExpression::Cast { .. }
+                        | HirExpression::Sizeof { .. }
+                        | HirExpression::Ternary { .. }
+                ) {
                     format!("{}({})", op_str, operand_code)
                 } else {
                     format!("{}{}", op_str, operand_code)
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index b98c358..c546b7f 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -460,8 +460,25 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         let cond_code = self.generate_expression_with_context(condition, ctx);
-        let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
-        let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
+        // Comparisons and logical operators are int in C, bool in Rust
+        let branch_code = |branch: &HirExpression| {
+            if Self::is_boolean_expression(branch) {
+                let code = self.generate_expression_with_context(branch, ctx);
+                format!("({}) as i32", code)
+            } else {
+                let code = self.generate_expression_with_target_type(branch, ctx, target_type);
+                // A leading block would end the branch as a statement
+                if matches!(branch, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
+                    && ["{", "unsafe {", "if "].iter().any(|block| code.starts_with(block))
+                {
+                    format!("({})", code)
+                } else {
+                    code
+                }
+            }
+        };
+        let then_code = branch_code(then_expr);
+        let else_code = branch_code(else_expr);
 
         let cond_bool = if Self::is_boolean_expression(condition) {
             cond_code
-- 
2.43.0


From f23e6e76fdd50fb1ce7139819afb695f0659b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 030/103] fix: read a pointer through in compound assignments

---
 crates/decy-hir/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..f00b2d2 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -1419,11 +1419,18 @@ impl HirStatement {
             // These become DerefAssignment with a BinaryOp value
             Statement::DerefCompoundAssignment { target, op, value } => {
                 let hir_target = HirExpression::from_ast_expression(target);
+                // Fields and elements are the place itself; a pointer is read through
+                let current = match &hir_target {
+                    HirExpression::PointerFieldAccess { .. }
+                    | HirExpression::FieldAccess { .. }
+                    | HirExpression::ArrayIndex { .. } => hir_target.clone(),
+                    _ => HirExpression::Dereference(Box::new(hir_target.clone())),
+                };
                 HirStatement::DerefAssignment {
-                    target: hir_target.clone(),
+                    target: hir_target,
                     value: HirExpression::BinaryOp {
                         op: convert_binary_operator(*op),
-                        left: Box::new(hir_target),
+                        left: Box::new(current),
                         right: Box::new(HirExpression::from_ast_expression(value)),
                     },
                 }
-- 
2.43.0


From b83af31a2c65e036dbf415ba174c002d69f71fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 031/103] fix: increment and decrement what a pointer points to

---
 crates/decy-parser/src/extract/statements.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 6d42b1c..607f4e4 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,7 +8,7 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator,
     extract_expression_from_cursor, extract_field_access, extract_single_statement,
-    try_extract_expression, visit_binary_operand, visit_expression,
+    extract_unary_op, try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -314,6 +314,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
             }
         }
 
+        // Check for a dereference: (*ptr)++ changes what ptr points to
+        if kind == CXCursor_UnaryOperator {
+            if let Some(expr @ Expression::Dereference(_)) = extract_unary_op(cursor) {
+                data.0 = Some(expr);
+                return CXChildVisit_Break;
+            }
+        }
+
         // Fall back to simple variable reference
         if kind == CXCursor_DeclRefExpr {
             let name_cxstring = unsafe { clang_getCursorSpelling(cursor) };
@@ -426,6 +434,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
                 return Some(Statement::ArrayIndexAssignment { array, index, value });
             }
+            // (*ptr)++ → *ptr = *ptr + 1
+            Expression::Dereference(inner) => {
+                return Some(Statement::DerefCompoundAssignment {
+                    target: *inner,
+                    op: if delta > 0 { BinaryOperator::Add } else { BinaryOperator::Subtract },
+                    value: Expression::IntLiteral(1),
+                });
+            }
             _ => {} // Fall through to simple variable handling
         }
     }
-- 
2.43.0


From 0d74f23c6e9015f6a0748e520551cb7b4cfab009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 032/103] fix: emit a typedef of an anonymous enum once

---
 crates/decy-core/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 2f52749..cccc317 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1111,9 +1111,12 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         .collect();
 
     // DECY-240: Convert enums to HIR
+    // Deduplicated by name: a typedef of an anonymous enum repeats the enum
+    let mut seen_enums = std::collections::HashSet::new();
     let hir_enums: Vec<decy_hir::HirEnum> = ast
         .enums()
         .iter()
+        .filter(|e| e.name.is_empty() || seen_enums.insert(e.name.clone()))
         .map(|e| {
             let variants = e
                 .variants
@@ -1180,7 +1183,9 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // DECY-119: Track emitted definitions to avoid duplicates
     let mut emitted_structs = std::collections::HashSet::new();
-    let mut emitted_typedefs = std::collections::HashSet::new();
+    // An enum definition already emits the alias of its name
+    let mut emitted_typedefs: std::collections::HashSet<String> =
+        hir_enums.iter().map(|e| e.name().to_string()).collect();
 
     // Generate struct definitions first (deduplicated)
     for hir_struct in &hir_structs {
@@ -1373,9 +1378,12 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         .collect();
 
     // DECY-240: Convert enums to HIR
+    // Deduplicated by name: a typedef of an anonymous enum repeats the enum
+    let mut seen_enums = std::collections::HashSet::new();
     let hir_enums: Vec<decy_hir::HirEnum> = ast
         .enums()
         .iter()
+        .filter(|e| e.name.is_empty() || seen_enums.insert(e.name.clone()))
         .map(|e| {
             let variants = e
                 .variants
@@ -1425,7 +1433,9 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
 
     // Track emitted items to avoid duplicates
     let mut emitted_structs = std::collections::HashSet::new();
-    let mut emitted_typedefs = std::collections::HashSet::new();
+    // An enum definition already emits the alias of its name
+    let mut emitted_typedefs: std::collections::HashSet<String> =
+        hir_enums.iter().map(|e| e.name().to_string()).collect();
 
     // Generate struct definitions
     for hir_struct in &hir_structs {
-- 
2.43.0


From 2020b22d69de81087a759226af2e76c3ad2eb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 033/103] fix: know the type of a nested struct field

---
 crates/decy-codegen/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index bb91385..6b15006 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -193,12 +193,12 @@ impl TypeContext {
     fn get_field_type(&self, object_expr: &HirExpression, field_name: &str) -> Option<HirType> {
         // Get the type of the object expression
         let object_type = match object_expr {
-            HirExpression::Variable(var_name) => self.get_type(var_name)?,
-            _ => return None,
+            HirExpression::Variable(var_name) => self.get_type(var_name)?.clone(),
+            _ => self.infer_expression_type(object_expr)?,
         };
 
         // Extract the struct name from the type
-        let struct_name = match object_type {
+        let struct_name = match &object_type {
             HirType::Struct(name) => name,
             HirType::Pointer(inner) => {
                 // If it's a pointer to a struct, dereference it
-- 
2.43.0


From bf5d100484b1d0e553c4e0c84787b35b837f5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 034/103] fix: escape only bare quotes of a char array
 initializer and assign global array elements in one unsafe block

---
 crates/decy-codegen/src/stmt_gen.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 4657b42..2da55e5 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -263,13 +263,19 @@ impl CodeGenerator {
 
         if is_char_array {
             if let HirExpression::StringLiteral(s) = init_expr {
-                let escaped: String = s
-                    .chars()
-                    .map(|c| match c {
-                        '"' => "\\\"".to_string(),
-                        c => c.to_string(),
-                    })
-                    .collect();
+                // The literal keeps its C escapes: only a bare quote needs one
+                let mut escaped = String::new();
+                let mut chars = s.chars();
+                while let Some(c) = chars.next() {
+                    match c {
+                        '"' => escaped.push_str("\\\""),
+                        '\\' => {
+                            escaped.push(c);
+                            escaped.extend(chars.next());
+                        }
+                        c => escaped.push(c),
+                    }
+                }
                 code.push_str(&format!(" = *b\"{}\\0\";", escaped));
             } else {
                 code.push_str(&format!(
@@ -807,6 +813,14 @@ impl CodeGenerator {
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
             let value_code = self.generate_expression_with_context(value, ctx);
+            if target_code.starts_with("unsafe { ") {
+                // An element of a global array: the block covers the whole assignment
+                return format!(
+                    "unsafe {{ {} = {}; }}",
+                    Self::strip_nested_unsafe(&target_code),
+                    Self::strip_nested_unsafe(&value_code)
+                );
+            }
             return format!("{} = {};", target_code, value_code);
         }
 
-- 
2.43.0


From 584b50e6c49f3a20a07bc6d0b65471e776845c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 035/103] fix: count malloc(sizeof(T) * n) elements and pass
 addresses to raw pointer parameters mutably

---
 crates/decy-codegen/src/expr_gen/calls.rs | 29 +++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 2f359c3..b869628 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -277,10 +277,11 @@ impl CodeGenerator {
             if let Some(HirType::Vec(elem_type)) = target_type {
                 let elem_type_str = Self::map_type(elem_type);
                 let default_val = Self::default_value_for_type(elem_type);
-                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
+                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, right } =
                     &arguments[0]
                 {
-                    let count_code = self.generate_expression_with_context(left, ctx);
+                    let count_code = self
+                        .generate_expression_with_context(Self::element_count(left, right), ctx);
                     return format!("vec![{}; ({}) as usize]", default_val, count_code);
                 } else {
                     return format!(
@@ -302,10 +303,11 @@ impl CodeGenerator {
                 }
                 let elem_type_str = Self::map_type(inner);
                 let default_val = Self::default_value_for_type(inner);
-                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
+                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, right } =
                     &arguments[0]
                 {
-                    let count_code = self.generate_expression_with_context(left, ctx);
+                    let count_code = self
+                        .generate_expression_with_context(Self::element_count(left, right), ctx);
                     return format!(
                         "Box::leak(vec![{}; ({}) as usize].into_boxed_slice()).as_mut_ptr() as *mut {}",
                         default_val, count_code, elem_type_str
@@ -318,10 +320,11 @@ impl CodeGenerator {
                 }
             }
 
-            if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
+            if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, right } =
                 &arguments[0]
             {
-                let count_code = self.generate_expression_with_context(left, ctx);
+                let count_code =
+                    self.generate_expression_with_context(Self::element_count(left, right), ctx);
                 format!("vec![0i32; ({}) as usize]", count_code)
             } else {
                 format!("Vec::<u8>::with_capacity(({}) as usize)", size_code)
@@ -331,6 +334,15 @@ impl CodeGenerator {
         }
     }
 
+    /// The element count of `n * sizeof(T)` or `sizeof(T) * n`.
+    fn element_count<'e>(left: &'e HirExpression, right: &'e HirExpression) -> &'e HirExpression {
+        if matches!(left, HirExpression::Sizeof { .. }) {
+            right
+        } else {
+            left
+        }
+    }
+
     pub(crate) fn gen_call_calloc(
         &self,
         arguments: &[HirExpression],
@@ -707,7 +719,10 @@ impl CodeGenerator {
                     let expects_mut = ctx
                         .get_function_param_type(function, i)
                         .map(|t| {
-                            matches!(t, HirType::Reference { mutable: true, .. })
+                            matches!(
+                                t,
+                                HirType::Reference { mutable: true, .. } | HirType::Pointer(_)
+                            )
                         })
                         .unwrap_or(true);
 
-- 
2.43.0


From a615d86a208938ee51b0ddb62160ea497d44c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:24 +0000
Subject: [PATCH 036/103] fix: keep a returned temporary that converts the
 value it holds

---
 crates/decy-core/src/optimize.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 2579ac7..a5fdb9e 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -29,9 +29,7 @@
 //! assert_eq!(optimized.body().len(), 1);
 //! ```
 
-#[cfg(test)]
-use decy_hir::HirType;
-use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 
 /// Maximum number of fixed-point iterations.
 const MAX_ITERATIONS: usize = 3;
@@ -51,7 +49,10 @@ pub fn optimize_function(func: &HirFunction) -> HirFunction {
 
         body = body.into_iter().map(fold_constants_stmt).collect();
         body = remove_dead_branches(body);
-        body = eliminate_temporaries(body);
+        // A temporary of another type than the function returns converts the value it holds
+        if !returns_converted_temporary(&body, func.return_type()) {
+            body = eliminate_temporaries(body);
+        }
 
         if body != prev {
             changed = true;
@@ -290,6 +291,25 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if the body returns a temporary whose type differs from the return type.
+fn returns_converted_temporary(stmts: &[HirStatement], return_type: &HirType) -> bool {
+    stmts.windows(2).any(|pair| {
+        matches!(
+            (&pair[0], &pair[1]),
+            (
+                HirStatement::VariableDeclaration { name, var_type, .. },
+                HirStatement::Return(Some(HirExpression::Variable(returned))),
+            ) if name == returned && !holds_the_same_value(var_type, return_type)
+        )
+    })
+}
+
+/// Check if a value stored as `temporary` and returned as `returned` is the value itself.
+fn holds_the_same_value(temporary: &HirType, returned: &HirType) -> bool {
+    let is_word = |t: &HirType| matches!(t, HirType::Int | HirType::UnsignedInt);
+    temporary == returned || (is_word(temporary) && is_word(returned))
+}
+
 /// Check if an expression is an allocation (malloc, calloc, realloc, cast wrapping allocation).
 /// These should NOT be inlined because box_transform needs the variable pattern.
 fn is_allocation_expr(expr: &HirExpression) -> bool {
-- 
2.43.0


From b961450fcdc9915136eca3df937dbf9840bc4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:55 +0000
Subject: [PATCH 037/103] fix: take the first delimiter of an include directive

---
 crates/decy-core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index cccc317..20b6942 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -291,8 +291,8 @@ impl DependencyGraph {
             let trimmed = line.trim();
             if trimmed.starts_with("#include") {
                 // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
-                    let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
+                if let Some(start) = trimmed.find(['"', '<']) {
+                    let end_char = if trimmed[start..].starts_with('"') { '"' } else { '>' };
                     if let Some(end) = trimmed[start + 1..].find(end_char) {
                         let filename = &trimmed[start + 1..start + 1 + end];
                         includes.push(filename.to_string());
-- 
2.43.0


From 4ba2855df6c6e4c91f3606629570f7044237454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:55 +0000
Subject: [PATCH 038/103] fix: miss the cache when a dependency was removed or
 appeared

---
 crates/decy-core/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 20b6942..6723f5c 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -454,13 +454,12 @@ impl TranspilationCache {
             return None;
         }
 
-        // Check if any dependency has changed
-        for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
+        // Check if any dependency has changed, appeared or gone away
+        for dep_path in &entry.transpiled.dependencies {
+            let current_dep_hash = self.compute_hash(dep_path).ok();
+            if current_dep_hash.as_ref() != entry.dependency_hashes.get(dep_path) {
+                self.misses += 1;
+                return None;
             }
         }
 
-- 
2.43.0


From 04818537a8d54695f5d63926ba8f4e8bf5b46225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:55 +0000
Subject: [PATCH 039/103] fix: replace the saved cache in one step

---
 crates/decy-core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 6723f5c..455f2b8 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -480,7 +480,10 @@ impl TranspilationCache {
         let json =
             serde_json::to_string_pretty(&self.entries).context("Failed to serialize cache")?;
 
-        std::fs::write(&cache_file, json)
+        // Replace the file in one step, so that an interrupted save leaves the previous cache
+        let partial_file = cache_dir.join(format!("cache.json.{}.tmp", std::process::id()));
+        std::fs::write(&partial_file, json)
+            .and_then(|()| std::fs::rename(&partial_file, &cache_file))
             .with_context(|| format!("Failed to write cache file: {}", cache_file.display()))?;
 
         Ok(())
-- 
2.43.0


From 22547483a583a075169c0a32c01cc6639544392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:55 +0000
Subject: [PATCH 040/103] fix: resolve the includes of a transpiled file from
 its directory and follow them

---
 crates/decy-core/src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 455f2b8..255e39b 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1631,7 +1631,7 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     let dependencies = extract_dependencies(path, &c_code)?;
 
     // Transpile the C code using the main pipeline
-    let rust_code = transpile(&c_code)?;
+    let rust_code = transpile_with_includes(&c_code, path.parent())?;
 
     // Extract function names from the generated Rust code
     let functions_exported = extract_function_names(&rust_code);
@@ -1650,10 +1650,19 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 
 /// Extract dependencies from #include directives in C code.
 ///
-/// This is a simplified implementation that detects #include directives
-/// and resolves them relative to the source file's directory.
+/// Resolves each #include relative to the directory of the including file and
+/// follows the headers' own #include directives.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
     let mut dependencies = Vec::new();
+    collect_dependencies(source_path, c_code, &mut dependencies)?;
+    Ok(dependencies)
+}
+
+fn collect_dependencies(
+    source_path: &Path,
+    c_code: &str,
+    dependencies: &mut Vec<PathBuf>,
+) -> Result<()> {
     let source_dir = source_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
@@ -1666,15 +1675,18 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() {
-                        dependencies.push(header_path);
+                    if header_path.exists() && !dependencies.contains(&header_path) {
+                        dependencies.push(header_path.clone());
+                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                            collect_dependencies(&header_path, &header_code, dependencies)?;
+                        }
                     }
                 }
             }
         }
     }
 
-    Ok(dependencies)
+    Ok(())
 }
 
 /// Extract function names from generated Rust code.
-- 
2.43.0


From 74b23c1515913400de06a34cd7a1eac192f44239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:12 +0000
Subject: [PATCH 041/103] fix: write the outputs of cached files

---
 crates/decy/src/main.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 924b38c..c1b11b1 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -15,7 +15,7 @@ use oracle_integration::{OracleOptions, OracleTranspileResult};
 use anyhow::{Context, Result};
 use clap::{Parser, Subcommand};
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Decy: C-to-Rust Transpiler with EXTREME Quality Standards
 #[derive(Parser, Debug)]
@@ -782,7 +782,9 @@ fn transpile_project(
 
         // Check cache
         if use_cache {
-            if let Some(_cached) = cache.get(&file_path) {
+            if let Some(cached) = cache.get(&file_path) {
+                let output_path = output_dir.join(relative_path).with_extension("rs");
+                write_output(&output_path, &cached.rust_code)?;
                 if verbose {
                     println!("✓ Cached: {}", relative_path.display());
                 }
@@ -816,14 +818,7 @@ fn transpile_project(
         // Compute output path (preserve directory structure)
         let output_path = output_dir.join(relative_path).with_extension("rs");
 
-        // Create parent directory if needed
-        if let Some(parent) = output_path.parent() {
-            fs::create_dir_all(parent)?;
-        }
-
-        // Write output
-        fs::write(&output_path, &rust_code)
-            .with_context(|| format!("Failed to write {}", output_path.display()))?;
+        write_output(&output_path, &rust_code)?;
 
         if verbose {
             println!("✓ Transpiled: {} → {}", relative_path.display(), output_path.display());
@@ -910,6 +905,15 @@ fn transpile_project(
     Ok(())
 }
 
+/// Write a transpiled file, creating its parent directory if needed.
+fn write_output(output_path: &Path, rust_code: &str) -> Result<()> {
+    if let Some(parent) = output_path.parent() {
+        fs::create_dir_all(parent)?;
+    }
+    fs::write(output_path, rust_code)
+        .with_context(|| format!("Failed to write {}", output_path.display()))
+}
+
 fn check_project(input_dir: PathBuf) -> Result<()> {
     use decy_core::DependencyGraph;
     use walkdir::WalkDir;
-- 
2.43.0


From 63c5791e64a80b1e9c7176e4e79b43f51651a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:33 +0000
Subject: [PATCH 042/103] fix: transpile the files of a project like single
 files and cache what they include

---
 crates/decy/src/main.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index c1b11b1..0e32c44 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -683,7 +683,7 @@ fn transpile_project(
     stats: bool,
     _oracle_opts: &OracleOptions,
 ) -> Result<()> {
-    use decy_core::{DependencyGraph, TranspilationCache};
+    use decy_core::{DependencyGraph, ProjectContext, TranspilationCache};
     use indicatif::{ProgressBar, ProgressStyle};
     use std::time::Instant;
     use walkdir::WalkDir;
@@ -795,11 +795,10 @@ fn transpile_project(
             }
         }
 
-        // Read C code
-        let c_code = fs::read_to_string(&file_path)
-            .with_context(|| format!("Failed to read {}", file_path.display()))?;
-
         if dry_run {
+            fs::read_to_string(&file_path)
+                .with_context(|| format!("Failed to read {}", file_path.display()))?;
+
             // Dry run mode - always show what would be done (that's the point of dry-run!)
             if !quiet {
                 println!("Would transpile: {}", relative_path.display());
@@ -810,15 +809,16 @@ fn transpile_project(
         }
 
         // Transpile
-        let rust_code = decy_core::transpile(&c_code)
+        let transpiled = decy_core::transpile_file(&file_path, &ProjectContext::new())
             .with_context(|| format!("Failed to transpile {}", file_path.display()))?;
+        let rust_code = &transpiled.rust_code;
 
         total_lines += rust_code.lines().count();
 
         // Compute output path (preserve directory structure)
         let output_path = output_dir.join(relative_path).with_extension("rs");
 
-        write_output(&output_path, &rust_code)?;
+        write_output(&output_path, rust_code)?;
 
         if verbose {
             println!("✓ Transpiled: {} → {}", relative_path.display(), output_path.display());
@@ -826,13 +826,6 @@ fn transpile_project(
 
         // Update cache
         if use_cache {
-            let transpiled = decy_core::TranspiledFile {
-                source_path: file_path.clone(),
-                rust_code: rust_code.clone(),
-                dependencies: vec![], // Would be populated by actual parser
-                functions_exported: vec![], // Would be populated by actual parser
-                ffi_declarations: String::new(), // Would be populated by actual parser
-            };
             cache.insert(&file_path, &transpiled);
         }
 
-- 
2.43.0


From 3eff46808979df5ab7c8fe6dfe84985929fadf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:33 +0000
Subject: [PATCH 043/103] fix: order the files of a checked project by their
 includes

---
 crates/decy/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 0e32c44..6181f11 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -940,10 +940,7 @@ fn check_project(input_dir: PathBuf) -> Result<()> {
     println!();
 
     // Build dependency graph
-    let mut dep_graph = DependencyGraph::new();
-    for file in &c_files {
-        dep_graph.add_file(file);
-    }
+    let dep_graph = DependencyGraph::from_files(&c_files)?;
 
     // Check for circular dependencies
     match dep_graph.topological_sort() {
-- 
2.43.0


From 4d7e4919a66dd0a29f18bae4ddde8d50ba725fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:50 +0000
Subject: [PATCH 044/103] fix: resolve includes when tracing

---
 crates/decy-core/src/lib.rs | 14 +++++++++++++-
 crates/decy/src/main.rs     |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 255e39b..ec86537 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -718,6 +718,18 @@ pub fn transpile(c_code: &str) -> Result<String> {
 /// ```
 pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollector)> {
     contract_pre_configuration!();
+    transpile_with_includes_and_trace(c_code, None)
+}
+
+/// Transpile C code with decision tracing, resolving #include paths relative to `base_dir`.
+///
+/// # Errors
+///
+/// Returns an error if transpilation fails, as [`transpile_with_includes`] does.
+pub fn transpile_with_includes_and_trace(
+    c_code: &str,
+    base_dir: Option<&Path>,
+) -> Result<(String, trace::TraceCollector)> {
     use trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
 
     let mut collector = TraceCollector::new();
@@ -734,7 +746,7 @@ pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollect
     });
 
     // Transpile normally
-    let rust_code = transpile(c_code)?;
+    let rust_code = transpile_with_includes(c_code, base_dir)?;
 
     // Record completion
     collector.record(TraceEntry {
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 6181f11..f6a4009 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -387,7 +387,7 @@ fn transpile_file(
     } else if trace_enabled {
         // DECY-193: Transpile with decision tracing
         let (code, trace_collector) =
-            decy_core::transpile_with_trace(&c_code).with_context(|| {
+            decy_core::transpile_with_includes_and_trace(&c_code, base_dir).with_context(|| {
                 format!(
                     "Failed to transpile {}\n\nTry: Check if the C code has syntax errors\n  or: Preprocess the file first: gcc -E {} -o preprocessed.c",
                     input.display(),
-- 
2.43.0


From c2b599df1f58315aa72c785624d29bb7afd2641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:11 +0000
Subject: [PATCH 045/103] fix: recognise an included file under another
 spelling of its path

---
 crates/decy-core/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index ec86537..9823732 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -617,6 +617,8 @@ fn preprocess_includes(
 
             // Resolve include path relative to base_dir
             let include_path = base_dir.join(filename);
+            // Different spellings of a path name one file
+            let include_path = include_path.canonicalize().unwrap_or(include_path);
 
             // Check if already processed (circular dependency or duplicate)
             if processed.contains(&include_path) {
@@ -1687,6 +1689,11 @@ fn collect_dependencies(
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
+                    let header_path = if header_path.components().any(|c| c.as_os_str() == "..") {
+                        header_path.canonicalize().unwrap_or(header_path)
+                    } else {
+                        header_path
+                    };
                     if header_path.exists() && !dependencies.contains(&header_path) {
                         dependencies.push(header_path.clone());
                         if let Ok(header_code) = std::fs::read_to_string(&header_path) {
-- 
2.43.0


From e6d0f70ea146b37928ad61429b5d41e00a5837c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 046/103] fix: report only the audited file from a reused
 auditor

---
 crates/decy-verify/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index c7a47f2..7850dc3 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -139,6 +139,10 @@ impl UnsafeAuditor {
 
     /// Analyze Rust source code and generate an audit report
     pub fn audit(&mut self, rust_code: &str) -> Result<UnsafeAuditReport> {
+        // Start over: an auditor reports one file at a time
+        self.unsafe_blocks.clear();
+        self.unsafe_lines = 0;
+
         // Store source code for line counting
         self.source_code = rust_code.to_string();
 
-- 
2.43.0


From 65e4f995ae275a65c961a6fcea3cd009097c8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 047/103] fix: count unsafe methods and the unsafe blocks in
 macro arguments when auditing

---
 crates/decy-verify/src/lib.rs | 78 ++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 7850dc3..1b4d53f 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -36,7 +36,10 @@ pub mod diff_test;
 pub mod lock_verify;
 
 use anyhow::{Context, Result};
-use syn::{visit::Visit, Block, Expr, ExprUnsafe, ItemFn};
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use syn::{
+    visit::Visit, Block, Expr, ExprUnsafe, ImplItemFn, ItemFn, Macro, Signature, TraitItemFn,
+};
 
 /// Represents a single unsafe block found in Rust code
 #[derive(Debug, Clone, PartialEq)]
@@ -206,6 +209,20 @@ impl UnsafeAuditor {
         (pattern, confidence, suggestion)
     }
 
+    /// Record a function marked unsafe: its entire body counts as unsafe
+    fn record_unsafe_fn(&mut self, sig: &Signature, block: &Block) {
+        if sig.unsafety.is_some() {
+            self.unsafe_lines += self.count_block_lines(block);
+
+            self.unsafe_blocks.push(UnsafeBlock {
+                line: 0,
+                confidence: 60,
+                pattern: UnsafePattern::Other,
+                suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
+            });
+        }
+    }
+
     /// Count lines in an unsafe block
     fn count_block_lines(&self, block: &Block) -> usize {
         // Rough approximation: count statements and add braces
@@ -242,23 +259,56 @@ impl<'ast> Visit<'ast> for UnsafeAuditor {
 
     /// Visit items to find unsafe functions
     fn visit_item_fn(&mut self, func: &'ast ItemFn) {
-        // Check if function is marked unsafe
-        if func.sig.unsafety.is_some() {
-            // Unsafe function - count the entire body as unsafe
-            let body_lines = self.count_block_lines(&func.block);
-            self.unsafe_lines += body_lines;
-
-            self.unsafe_blocks.push(UnsafeBlock {
-                line: 0,
-                confidence: 60,
-                pattern: UnsafePattern::Other,
-                suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
-            });
-        }
+        self.record_unsafe_fn(&func.sig, &func.block);
 
         // Continue visiting the function body
         syn::visit::visit_item_fn(self, func);
     }
+
+    fn visit_impl_item_fn(&mut self, func: &'ast ImplItemFn) {
+        self.record_unsafe_fn(&func.sig, &func.block);
+        syn::visit::visit_impl_item_fn(self, func);
+    }
+
+    fn visit_trait_item_fn(&mut self, func: &'ast TraitItemFn) {
+        if let Some(block) = &func.default {
+            self.record_unsafe_fn(&func.sig, block);
+        }
+        syn::visit::visit_trait_item_fn(self, func);
+    }
+
+    fn visit_macro(&mut self, mac: &'ast Macro) {
+        // The arguments of a macro are tokens, not expressions
+        for unsafe_expr in unsafe_blocks_of_tokens(mac.tokens.clone()) {
+            Visit::visit_expr(self, &Expr::Unsafe(unsafe_expr));
+        }
+        syn::visit::visit_macro(self, mac);
+    }
+}
+
+/// Find the outermost unsafe blocks written among the tokens of a macro call.
+fn unsafe_blocks_of_tokens(tokens: TokenStream) -> Vec<ExprUnsafe> {
+    let mut found = Vec::new();
+    let mut tokens = tokens.into_iter().peekable();
+
+    while let Some(token) = tokens.next() {
+        match (&token, tokens.peek()) {
+            (TokenTree::Ident(word), Some(TokenTree::Group(group)))
+                if word == "unsafe" && group.delimiter() == Delimiter::Brace =>
+            {
+                let block: TokenStream =
+                    [token.clone(), group.clone().into()].into_iter().collect();
+                if let Ok(unsafe_expr) = syn::parse2(block) {
+                    found.push(unsafe_expr);
+                    tokens.next();
+                }
+            }
+            (TokenTree::Group(group), _) => found.extend(unsafe_blocks_of_tokens(group.stream())),
+            _ => {}
+        }
+    }
+
+    found
 }
 
 /// Convenience function to audit Rust code
-- 
2.43.0


From b5b6f7b501307b22b9c85d5cb2bd1a6f4674b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 048/103] fix: verify each compilation in a directory of its
 own

---
 crates/decy-verify/src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 1b4d53f..d51715d 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -362,12 +362,11 @@ pub struct CompilationResult {
 /// ```
 pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
     use std::process::Command;
-    use std::time::{SystemTime, UNIX_EPOCH};
 
-    let unique_id = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
-    let temp_dir = std::env::temp_dir();
-    let temp_file = temp_dir.join(format!("decy_verify_{}.rs", unique_id));
-    let temp_output = temp_dir.join(format!("decy_verify_{}.rmeta", unique_id));
+    // A directory of its own, removed on every return
+    let temp_dir = tempfile::tempdir().context("Failed to create temp directory")?;
+    let temp_file = temp_dir.path().join("decy_verify.rs");
+    let temp_output = temp_dir.path().join("decy_verify.rmeta");
 
     std::fs::write(&temp_file, rust_code)
         .context("Failed to write temp file for compilation check")?;
@@ -381,10 +380,6 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
         .output()
         .context("Failed to run rustc — is it installed?")?;
 
-    // Remove scratch files
-    let _ = std::fs::remove_file(&temp_file);
-    let _ = std::fs::remove_file(&temp_output);
-
     let stderr = String::from_utf8_lossy(&output.stderr);
 
     if output.status.success() {
-- 
2.43.0


From 1efb6122c0c4c3be9ae7404db0a10334cbf6ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 049/103] fix: read the code of a compiler error only where it
 stands

---
 crates/decy-verify/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index d51715d..ab4c01b 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -392,9 +392,9 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
             if line.starts_with("error") {
                 // Extract error code like E0308 from "error[E0308]: ..."
                 let code = line
-                    .find('[')
-                    .and_then(|start| line.find(']').map(|end| (start, end)))
-                    .map(|(start, end)| line[start + 1..end].to_string());
+                    .strip_prefix("error[")
+                    .and_then(|rest| rest.split_once(']'))
+                    .map(|(code, _)| code.to_string());
                 errors.push(CompilationError { code, message: line.to_string() });
             }
         }
-- 
2.43.0


From 693ff1e0559dd19c41f177998ca48d5a1a2d89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 050/103] fix: link the math library after the C source

---
 crates/decy-verify/src/diff_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index a1e88c7..f16157f 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -95,8 +95,8 @@ pub fn compile_c(c_code: &str, config: &DiffTestConfig) -> Result<(TempDir, Path
         .arg("-x")
         .arg("c")
         .arg("-std=c99")
-        .arg("-lm")
         .arg(&src)
+        .arg("-lm")
         .output()
         .with_context(|| format!("Failed to run gcc ({})", config.gcc_path))?;
 
-- 
2.43.0


From bf113772e09281d818e30ee0072df0703080472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 051/103] fix: stop a differential test when its timeout has
 passed

---
 crates/decy-verify/src/diff_test.rs | 64 ++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index f16157f..9e7c493 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,8 +18,11 @@
 //! ```
 
 use anyhow::{Context, Result};
+use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::Command;
+use std::process::{Command, Output, Stdio};
+use std::thread::JoinHandle;
+use std::time::{Duration, Instant};
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -140,11 +143,60 @@ pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
         .output()
         .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
 
-    Ok(ExecutionOutput {
+    Ok(captured(output))
+}
+
+/// Run a compiled binary, capture its output and stop it after `timeout`.
+///
+/// # Errors
+///
+/// Returns an error if the binary cannot be run or does not end in time.
+pub fn run_binary_with_timeout(binary: &Path, timeout: Duration) -> Result<ExecutionOutput> {
+    let mut child = Command::new(binary)
+        .stdin(Stdio::null())
+        .stdout(Stdio::piped())
+        .stderr(Stdio::piped())
+        .spawn()
+        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
+
+    // Drain both pipes while waiting, so that the binary never blocks on a full one
+    let stdout = child.stdout.take().map(drain);
+    let stderr = child.stderr.take().map(drain);
+
+    let deadline = Instant::now() + timeout;
+    let status = loop {
+        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
+            break status;
+        }
+        if Instant::now() >= deadline {
+            let _ = child.kill();
+            let _ = child.wait();
+            anyhow::bail!("{} did not end within {} seconds", binary.display(), timeout.as_secs());
+        }
+        std::thread::sleep(Duration::from_millis(2));
+    };
+
+    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
+        reader.and_then(|reader| reader.join().ok()).unwrap_or_default()
+    };
+    Ok(captured(Output { status, stdout: collect(stdout), stderr: collect(stderr) }))
+}
+
+/// Read a pipe to its end on a thread of its own.
+fn drain(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let _ = pipe.read_to_end(&mut bytes);
+        bytes
+    })
+}
+
+fn captured(output: Output) -> ExecutionOutput {
+    ExecutionOutput {
         stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
         stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
         exit_code: output.status.code().unwrap_or(-1),
-    })
+    }
 }
 
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
@@ -157,8 +209,10 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
-    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
+    let timeout = Duration::from_secs(config.timeout_secs);
+    let c_output = run_binary_with_timeout(&c_bin, timeout).context("Failed to run C binary")?;
+    let rust_output =
+        run_binary_with_timeout(&rs_bin, timeout).context("Failed to run Rust binary")?;
 
     // Compare
     let stdout_matches = c_output.stdout == rust_output.stdout;
-- 
2.43.0


From 214962ce5eb0c3d64f9f9ddf6fb2215250109ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 052/103] fix: tell different bytes and signals apart in a
 differential test

---
 crates/decy-verify/src/diff_test.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 9e7c493..61b09d3 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -20,7 +20,7 @@
 use anyhow::{Context, Result};
 use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, Output, Stdio};
+use std::process::{Command, ExitStatus, Output, Stdio};
 use std::thread::JoinHandle;
 use std::time::{Duration, Instant};
 use tempfile::TempDir;
@@ -193,12 +193,26 @@ fn drain(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
 
 fn captured(output: Output) -> ExecutionOutput {
     ExecutionOutput {
-        stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
-        stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
-        exit_code: output.status.code().unwrap_or(-1),
+        stdout: text_of(output.stdout),
+        stderr: text_of(output.stderr),
+        exit_code: exit_code_of(&output.status),
     }
 }
 
+/// Output as text; bytes that are not UTF-8 are escaped, so that different output stays different.
+fn text_of(bytes: Vec<u8>) -> String {
+    String::from_utf8(bytes).unwrap_or_else(|e| e.into_bytes().escape_ascii().to_string())
+}
+
+/// Exit code, or the negated number of the signal that ended the process.
+fn exit_code_of(status: &ExitStatus) -> i32 {
+    #[cfg(unix)]
+    if let Some(signal) = std::os::unix::process::ExitStatusExt::signal(status) {
+        return -signal;
+    }
+    status.code().unwrap_or(-1)
+}
+
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
 /// execute both, and compare outputs.
 pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Result<DiffTestResult> {
-- 
2.43.0


From 490d7fd2a9e80ef5cb55f77633f82e6d15b00984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:09 +0000
Subject: [PATCH 053/103] fix: see shared data accessed in nested statements
 and by increments in lock analysis

---
 crates/decy-analyzer/src/lock_analysis.rs | 30 ++++++++-
 crates/decy-verify/src/lock_verify.rs     | 74 ++++++++++++++++++++---
 2 files changed, 92 insertions(+), 12 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 11c86e5..10bd211 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -206,7 +206,21 @@ impl LockAnalyzer {
                     self.collect_accessed_variables(s, accessed);
                 }
             }
-            HirStatement::Expression(expr) => {
+            HirStatement::For { init, condition, increment, body } => {
+                for s in init.iter().chain(increment).chain(body) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+                if let Some(condition) = condition {
+                    self.collect_variables_from_expr(condition, accessed);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.collect_variables_from_expr(condition, accessed);
+                for s in cases.iter().flat_map(|c| &c.body).chain(default_case.iter().flatten()) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Expression(expr) | HirStatement::Free { pointer: expr } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
             HirStatement::DerefAssignment { target, value } => {
@@ -254,9 +268,21 @@ impl LockAnalyzer {
                 self.collect_variables_from_expr(array, accessed);
                 self.collect_variables_from_expr(index, accessed);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 self.collect_variables_from_expr(object, accessed);
             }
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand } => {
+                self.collect_variables_from_expr(operand, accessed);
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                self.collect_variables_from_expr(condition, accessed);
+                self.collect_variables_from_expr(then_expr, accessed);
+                self.collect_variables_from_expr(else_expr, accessed);
+            }
             HirExpression::Cast { expr, .. } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index d69a7af..d7a83b1 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -174,27 +174,69 @@ impl<'a> LockDisciplineChecker<'a> {
 
     /// Collect all variable names accessed in a statement
     fn collect_accessed_vars(&self, stmt: &decy_hir::HirStatement) -> Vec<String> {
-        use decy_hir::HirStatement;
         let mut vars = Vec::new();
+        Self::collect_vars_from_stmt(stmt, &mut vars);
+        vars
+    }
+
+    /// Recursively collect variable names from a statement
+    fn collect_vars_from_stmt(stmt: &decy_hir::HirStatement, vars: &mut Vec<String>) {
+        use decy_hir::HirStatement;
 
         match stmt {
             HirStatement::Assignment { target, value } => {
                 vars.push(target.clone());
-                Self::collect_vars_from_expr(value, &mut vars);
+                Self::collect_vars_from_expr(value, vars);
             }
             HirStatement::VariableDeclaration { initializer: Some(init), .. } => {
-                Self::collect_vars_from_expr(init, &mut vars);
+                Self::collect_vars_from_expr(init, vars);
+            }
+            HirStatement::Expression(expr)
+            | HirStatement::Return(Some(expr))
+            | HirStatement::Free { pointer: expr } => {
+                Self::collect_vars_from_expr(expr, vars);
             }
-            HirStatement::Expression(expr) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
+            HirStatement::DerefAssignment { target, value } => {
+                Self::collect_vars_from_expr(target, vars);
+                Self::collect_vars_from_expr(value, vars);
             }
-            HirStatement::Return(Some(expr)) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                Self::collect_vars_from_expr(array, vars);
+                Self::collect_vars_from_expr(index, vars);
+                Self::collect_vars_from_expr(value, vars);
+            }
+            HirStatement::FieldAssignment { object, value, .. } => {
+                Self::collect_vars_from_expr(object, vars);
+                Self::collect_vars_from_expr(value, vars);
+            }
+            HirStatement::If { condition, then_block, else_block } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in then_block.iter().chain(else_block.iter().flatten()) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+            }
+            HirStatement::While { condition, body } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in body {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+            }
+            HirStatement::For { init, condition, increment, body } => {
+                for s in init.iter().chain(increment).chain(body) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+                if let Some(condition) = condition {
+                    Self::collect_vars_from_expr(condition, vars);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in cases.iter().flat_map(|c| &c.body).chain(default_case.iter().flatten()) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
             }
             _ => {}
         }
-
-        vars
     }
 
     /// Recursively collect variable names from an expression
@@ -224,9 +266,21 @@ impl<'a> LockDisciplineChecker<'a> {
                 Self::collect_vars_from_expr(array, vars);
                 Self::collect_vars_from_expr(index, vars);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 Self::collect_vars_from_expr(object, vars);
             }
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand } => {
+                Self::collect_vars_from_expr(operand, vars);
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::collect_vars_from_expr(condition, vars);
+                Self::collect_vars_from_expr(then_expr, vars);
+                Self::collect_vars_from_expr(else_expr, vars);
+            }
             HirExpression::Cast { expr, .. } => {
                 Self::collect_vars_from_expr(expr, vars);
             }
-- 
2.43.0


From 2224f270c8f30f795c6841eec8431e0c3931c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:27 +0000
Subject: [PATCH 054/103] fix: resolve parent directories in the includes of a
 dependency graph

---
 crates/decy-core/src/lib.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 9823732..7ad31da 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -253,8 +253,10 @@ impl DependencyGraph {
         let mut graph = Self::new();
 
         // Add all files first
+        let mut known_files = HashMap::new();
         for file in files {
             graph.add_file(file);
+            known_files.insert(Self::without_parent_components(file), file);
         }
 
         // Parse dependencies
@@ -268,11 +270,11 @@ impl DependencyGraph {
             let file_dir = file.parent().unwrap_or_else(|| Path::new("."));
 
             for include in includes {
-                let include_path = file_dir.join(&include);
+                let include_path = Self::without_parent_components(&file_dir.join(&include));
 
                 // Only add dependency if the included file is in our file list
-                if graph.contains_file(&include_path) {
-                    graph.add_dependency(file, &include_path);
+                if let Some(included) = known_files.get(&include_path) {
+                    graph.add_dependency(file, included);
                 }
             }
         }
@@ -280,6 +282,25 @@ impl DependencyGraph {
         Ok(graph)
     }
 
+    /// Resolve `.` and `..` in a path without looking at the file system.
+    fn without_parent_components(path: &Path) -> PathBuf {
+        use std::path::Component;
+
+        let mut resolved = PathBuf::new();
+        for component in path.components() {
+            match component {
+                Component::CurDir => {}
+                Component::ParentDir
+                    if matches!(resolved.components().next_back(), Some(Component::Normal(_))) =>
+                {
+                    resolved.pop();
+                }
+                other => resolved.push(other),
+            }
+        }
+        resolved
+    }
+
     /// Parse #include directives from C source code.
     ///
     /// Returns a list of filenames (e.g., ["utils.h", "stdio.h"]).
-- 
2.43.0


From b4d610327dac14dee1f2605e517374878d07d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:28 +0000
Subject: [PATCH 055/103] fix: do not take a nested lock for data its outer
 lock protects

---
 crates/decy-analyzer/src/lock_analysis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 10bd211..9bc2846 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -160,7 +160,12 @@ impl LockAnalyzer {
         // Scan statements in the region (excluding lock/unlock calls)
         for idx in (region.start_index + 1)..region.end_index {
             if let Some(stmt) = body.get(idx) {
-                self.collect_accessed_variables(stmt, &mut accessed);
+                // Another lock taken or released here is not data
+                if Self::extract_lock_call(stmt).is_none()
+                    && Self::extract_unlock_call(stmt).is_none()
+                {
+                    self.collect_accessed_variables(stmt, &mut accessed);
+                }
             }
         }
 
-- 
2.43.0


From 169b199f89a00ca087f5083cb5a2e724119d35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:31 +0000
Subject: [PATCH 056/103] fix: let the definition of a struct replace its
 forward declaration

---
 crates/decy-parser/src/ast_types.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/ast_types.rs b/crates/decy-parser/src/ast_types.rs
index f053d62..04d8f81 100644
--- a/crates/decy-parser/src/ast_types.rs
+++ b/crates/decy-parser/src/ast_types.rs
@@ -1007,9 +1007,12 @@ impl Ast {
     /// Add a struct to the AST.
     /// Deduplicates by name to avoid duplicate definitions from system includes.
     pub fn add_struct(&mut self, struct_def: Struct) {
-        // Deduplicate: don't add if a struct with the same name already exists
-        if !self.structs.iter().any(|s| s.name() == struct_def.name()) {
-            self.structs.push(struct_def);
+        // Deduplicate: don't add if a struct with the same name already exists,
+        // unless that one is only its forward declaration
+        match self.structs.iter_mut().find(|s| s.name() == struct_def.name()) {
+            None => self.structs.push(struct_def),
+            Some(declared) if declared.fields().is_empty() => *declared = struct_def,
+            Some(_) => {}
         }
     }
 
-- 
2.43.0


From e1956796f865c269b2ab4aa17310c8d6ed674d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 057/103] fix: keep a cast or sizeof that is a whole condition

---
 crates/decy-parser/src/extract/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 059962f..fe913d7 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -111,6 +111,8 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
+        117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
+        136 => extract_sizeof(cursor),         // CXCursor_UnaryExpr
         _ => {
             let mut expr: Option<Expression> = None;
             let expr_ptr = &mut expr as *mut Option<Expression>;
-- 
2.43.0


From 0487d1dd2e52486fb7530ddcc0757119ac2025b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 058/103] fix: do not read an operand that begins with sizeof
 as that sizeof alone

---
 crates/decy-parser/src/extract/expressions.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index fe913d7..e45892f 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -700,13 +700,8 @@ pub(crate) extern "C" fn visit_binary_operand(
             CXChildVisit_Continue
         }
         CXCursor_UnexposedExpr | CXCursor_ParenExpr => {
-            // Unexposed expressions might be sizeof or wrap other expressions
-            if let Some(expr) = extract_sizeof(cursor) {
-                operands.push(expr);
-                CXChildVisit_Continue
-            } else {
-                CXChildVisit_Recurse
-            }
+            // These wrap another expression, which may only begin with a sizeof
+            CXChildVisit_Recurse
         }
         136 => {
             // CXCursor_UnaryExpr - includes sizeof, alignof, etc.
@@ -1235,13 +1230,8 @@ pub(crate) extern "C" fn visit_call_argument(
             CXChildVisit_Continue
         }
         CXCursor_UnexposedExpr | CXCursor_ParenExpr => {
-            // Unexposed expressions might wrap actual expressions or be sizeof, try to extract
-            if let Some(expr) = extract_sizeof(cursor) {
-                arg_data.arguments.push(expr);
-                CXChildVisit_Continue
-            } else {
-                CXChildVisit_Recurse
-            }
+            // These wrap another expression, which may only begin with a sizeof
+            CXChildVisit_Recurse
         }
         136 => {
             // CXCursor_UnaryExpr - includes sizeof, alignof, etc.
-- 
2.43.0


From 0dc8507e9b08da4a35a6df49707311037462e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 059/103] fix: keep the operands of a comma expression
 statement

---
 crates/decy-parser/src/extract/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 71646b3..40fa4f5 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -293,6 +293,12 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_BinaryOperator
+            if expressions::extract_binary_operator(cursor) == Some(BinaryOperator::Comma) =>
+        {
+            // Comma operator (a = 1, b = 2) - each operand is a statement of its own
+            CXChildVisit_Recurse
+        }
         CXCursor_BinaryOperator => {
             // Could be an assignment statement (x = 42)
             if let Some(stmt) = extract_assignment_stmt(cursor) {
-- 
2.43.0


From f2f3bc12c2cb5261e8e1f3be52b76630f99e9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 060/103] fix: recognise an assignment whose operands contain
 comparisons

---
 crates/decy-parser/src/extract/statements.rs | 56 ++------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 607f4e4..e854673 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -111,59 +111,9 @@ pub(crate) fn extract_return_stmt(cursor: CXCursor) -> Option<Statement> {
 
 /// Extract an assignment statement.
 pub(crate) fn extract_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
-    // Check if this binary operator is an assignment '=' (not '==', '!=', etc.)
-    // Get the translation unit
-    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
-    if tu.is_null() {
-        return None;
-    }
-
-    // Get the extent (source range) of the cursor
-    let extent = unsafe { clang_getCursorExtent(cursor) };
-
-    // Tokenize to find the operator
-    let mut tokens = ptr::null_mut();
-    let mut num_tokens = 0;
-
-    unsafe {
-        clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
-    }
-
-    let mut is_assignment = false;
-
-    // Look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
-    for i in 0..num_tokens {
-        unsafe {
-            let token = *tokens.add(i as usize);
-            let token_kind = clang_getTokenKind(token);
-
-            if token_kind == CXToken_Punctuation {
-                let token_cxstring = clang_getTokenSpelling(tu, token);
-                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-                if let Ok(token_str) = c_str.to_str() {
-                    // Only accept single '=' for assignment
-                    if token_str == "=" {
-                        is_assignment = true;
-                        clang_disposeString(token_cxstring);
-                        break;
-                    } else if token_str == "=="
-                        || token_str == "!="
-                        || token_str == "<="
-                        || token_str == ">="
-                    {
-                        // This is a comparison operator, not assignment
-                        clang_disposeString(token_cxstring);
-                        break;
-                    }
-                }
-                clang_disposeString(token_cxstring);
-            }
-        }
-    }
-
-    unsafe {
-        clang_disposeTokens(tu, tokens, num_tokens);
-    }
+    // Check if this binary operator is an assignment '=' (not '==', '!=', etc.): an operand may
+    // well contain a comparison or another assignment
+    let is_assignment = extract_binary_operator(cursor) == Some(BinaryOperator::Assign);
 
     if !is_assignment {
         return None;
-- 
2.43.0


From 4d8746be826db8544b95c619fd2957f838236e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:43 +0000
Subject: [PATCH 061/103] fix: find the header of a for statement behind a
 comment

---
 crates/decy-parser/src/extract/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index e854673..d291e00 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -683,7 +683,7 @@ fn for_header_semicolons(cursor: CXCursor) -> Option<[u32; 2]> {
                 _ => {}
             }
             clang_disposeString(spelling);
-            if depth == 0 && i > 0 {
+            if depth == 0 && !semicolons.is_empty() {
                 break; // end of the header
             }
         }
-- 
2.43.0


From e69c027559f616911b8efb6f3d0ebc6e5c6873c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:43 +0000
Subject: [PATCH 062/103] fix: keep every statement that stands alone as a body

---
 crates/decy-parser/src/extract/statements.rs | 22 +++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index d291e00..1dde6de 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -605,9 +605,7 @@ pub(crate) extern "C" fn visit_if_children(
                 }
             } else {
                 // Single statement without braces: if (cond) return 1;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.then_block.push(stmt);
-                }
+                extract_body_statements(cursor, &mut if_data.then_block);
             }
             if_data.child_index += 1;
             CXChildVisit_Continue
@@ -629,8 +627,10 @@ pub(crate) extern "C" fn visit_if_children(
                 }
             } else {
                 // Single statement in else: else return 0;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.else_block = Some(vec![stmt]);
+                let mut else_stmts = Vec::new();
+                extract_body_statements(cursor, &mut else_stmts);
+                if !else_stmts.is_empty() {
+                    if_data.else_block = Some(else_stmts);
                 }
             }
             if_data.child_index += 1;
@@ -837,9 +837,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         }
     } else {
         // Single statement body - extract it
-        if let Some(stmt) = extract_single_statement(body_child.cursor) {
-            body.push(stmt);
-        }
+        extract_body_statements(body_child.cursor, &mut body);
     }
 
     // Process children before body
@@ -1012,8 +1010,8 @@ pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
         unsafe {
             clang_visitChildren(body_cursor, visit_statement, &mut body as *mut _ as CXClientData);
         }
-    } else if let Some(stmt) = extract_single_statement(body_cursor) {
-        body.push(stmt);
+    } else {
+        extract_body_statements(body_cursor, &mut body);
     }
 
     let condition = extract_expression_from_cursor(condition_cursor)?;
@@ -1059,9 +1057,9 @@ pub(crate) extern "C" fn visit_while_children(
                 unsafe {
                     clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
                 }
-            } else if let Some(stmt) = extract_single_statement(cursor) {
+            } else {
                 // Single statement without braces: while (cond) i++;
-                while_data.body.push(stmt);
+                extract_body_statements(cursor, &mut while_data.body);
             }
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From 0fd08ed2c048a8fc67d23e58e365965686e7ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:11 +0000
Subject: [PATCH 063/103] Revert "fix: tell different bytes and signals apart
 in a differential test"

This reverts commit 214962ce5eb0c3d64f9f9ddf6fb2215250109ae2.
---
 crates/decy-verify/src/diff_test.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 61b09d3..9e7c493 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -20,7 +20,7 @@
 use anyhow::{Context, Result};
 use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, ExitStatus, Output, Stdio};
+use std::process::{Command, Output, Stdio};
 use std::thread::JoinHandle;
 use std::time::{Duration, Instant};
 use tempfile::TempDir;
@@ -193,26 +193,12 @@ fn drain(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
 
 fn captured(output: Output) -> ExecutionOutput {
     ExecutionOutput {
-        stdout: text_of(output.stdout),
-        stderr: text_of(output.stderr),
-        exit_code: exit_code_of(&output.status),
+        stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
+        stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
+        exit_code: output.status.code().unwrap_or(-1),
     }
 }
 
-/// Output as text; bytes that are not UTF-8 are escaped, so that different output stays different.
-fn text_of(bytes: Vec<u8>) -> String {
-    String::from_utf8(bytes).unwrap_or_else(|e| e.into_bytes().escape_ascii().to_string())
-}
-
-/// Exit code, or the negated number of the signal that ended the process.
-fn exit_code_of(status: &ExitStatus) -> i32 {
-    #[cfg(unix)]
-    if let Some(signal) = std::os::unix::process::ExitStatusExt::signal(status) {
-        return -signal;
-    }
-    status.code().unwrap_or(-1)
-}
-
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
 /// execute both, and compare outputs.
 pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Result<DiffTestResult> {
-- 
2.43.0


From b4147e972afb0765650030280590bfab8b714312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:11 +0000
Subject: [PATCH 064/103] Revert "fix: stop a differential test when its
 timeout has passed"

This reverts commit bf113772e09281d818e30ee0072df0703080472a.
---
 crates/decy-verify/src/diff_test.rs | 64 +++--------------------------
 1 file changed, 5 insertions(+), 59 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 9e7c493..f16157f 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,11 +18,8 @@
 //! ```
 
 use anyhow::{Context, Result};
-use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, Output, Stdio};
-use std::thread::JoinHandle;
-use std::time::{Duration, Instant};
+use std::process::Command;
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -143,60 +140,11 @@ pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
         .output()
         .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
 
-    Ok(captured(output))
-}
-
-/// Run a compiled binary, capture its output and stop it after `timeout`.
-///
-/// # Errors
-///
-/// Returns an error if the binary cannot be run or does not end in time.
-pub fn run_binary_with_timeout(binary: &Path, timeout: Duration) -> Result<ExecutionOutput> {
-    let mut child = Command::new(binary)
-        .stdin(Stdio::null())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped())
-        .spawn()
-        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
-
-    // Drain both pipes while waiting, so that the binary never blocks on a full one
-    let stdout = child.stdout.take().map(drain);
-    let stderr = child.stderr.take().map(drain);
-
-    let deadline = Instant::now() + timeout;
-    let status = loop {
-        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
-            break status;
-        }
-        if Instant::now() >= deadline {
-            let _ = child.kill();
-            let _ = child.wait();
-            anyhow::bail!("{} did not end within {} seconds", binary.display(), timeout.as_secs());
-        }
-        std::thread::sleep(Duration::from_millis(2));
-    };
-
-    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
-        reader.and_then(|reader| reader.join().ok()).unwrap_or_default()
-    };
-    Ok(captured(Output { status, stdout: collect(stdout), stderr: collect(stderr) }))
-}
-
-/// Read a pipe to its end on a thread of its own.
-fn drain(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut bytes = Vec::new();
-        let _ = pipe.read_to_end(&mut bytes);
-        bytes
-    })
-}
-
-fn captured(output: Output) -> ExecutionOutput {
-    ExecutionOutput {
+    Ok(ExecutionOutput {
         stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
         stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
         exit_code: output.status.code().unwrap_or(-1),
-    }
+    })
 }
 
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
@@ -209,10 +157,8 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let timeout = Duration::from_secs(config.timeout_secs);
-    let c_output = run_binary_with_timeout(&c_bin, timeout).context("Failed to run C binary")?;
-    let rust_output =
-        run_binary_with_timeout(&rs_bin, timeout).context("Failed to run Rust binary")?;
+    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
+    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
 
     // Compare
     let stdout_matches = c_output.stdout == rust_output.stdout;
-- 
2.43.0


From 8ad822c38f73fbe688183153f9a92d69733bc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:11 +0000
Subject: [PATCH 065/103] Revert "fix: link the math library after the C
 source"

This reverts commit 693ff1e0559dd19c41f177998ca48d5a1a2d89cb.
---
 crates/decy-verify/src/diff_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index f16157f..a1e88c7 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -95,8 +95,8 @@ pub fn compile_c(c_code: &str, config: &DiffTestConfig) -> Result<(TempDir, Path
         .arg("-x")
         .arg("c")
         .arg("-std=c99")
-        .arg(&src)
         .arg("-lm")
+        .arg(&src)
         .output()
         .with_context(|| format!("Failed to run gcc ({})", config.gcc_path))?;
 
-- 
2.43.0


From a4c42155e731ca259ce669a615db1a19055edf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 066/103] fix: find the error code anywhere in a compiler
 message

---
 crates/decy-core/src/metrics.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index baecd77..f4ea361 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -143,11 +143,9 @@ impl CompileMetrics {
 /// - "some unknown error" -> "UNKNOWN"
 fn extract_error_code(message: &str) -> String {
     // Pattern: E followed by 4 digits
-    if let Some(start) = message.find('E') {
-        let rest = &message[start..];
-        if rest.len() >= 5 && rest[1..5].chars().all(|c| c.is_ascii_digit()) {
-            return rest[..5].to_string();
-        }
+    let is_code = |w: &[u8]| w[0] == b'E' && w[1..].iter().all(u8::is_ascii_digit);
+    if let Some(start) = message.as_bytes().windows(5).position(is_code) {
+        return message[start..start + 5].to_string();
     }
 
     // Try pattern with brackets: error[E0308]
-- 
2.43.0


From 60a68aae27e574bac61a97928cbc91ecd75064df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 067/103] fix: roll back only to a version registered before
 the active one

---
 crates/decy-ownership/src/model_versioning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index 484a436..54d4dba 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -371,8 +371,8 @@ impl ModelVersionManager {
             .versions
             .iter()
             .enumerate()
+            .take(current_idx) // Only versions registered before the current one
             .rev()
-            .skip(1) // Skip current
             .find(|(_, e)| !e.rolled_back)
             .map(|(i, _)| i)
             .ok_or("No previous version available for rollback")?;
-- 
2.43.0


From e86f423f5c8b58172261b35f565c37c44118d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 068/103] fix: keep the trace verifier's scratch files apart
 from the fix verifier's

---
 crates/decy-oracle/src/trace_verifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-oracle/src/trace_verifier.rs b/crates/decy-oracle/src/trace_verifier.rs
index 5e112ea..ba349d7 100644
--- a/crates/decy-oracle/src/trace_verifier.rs
+++ b/crates/decy-oracle/src/trace_verifier.rs
@@ -151,7 +151,7 @@ impl TraceVerifier {
         let unique_id = format!("{}_{}", std::process::id(), counter);
 
         let temp_dir = std::env::temp_dir();
-        let rust_path = temp_dir.join(format!("decy_verify_{}.rs", unique_id));
+        let rust_path = temp_dir.join(format!("decy_trace_{}.rs", unique_id));
 
         // Write Rust code to scratch file
         let mut file = std::fs::File::create(&rust_path)
@@ -164,14 +164,14 @@ impl TraceVerifier {
             .arg("--emit=metadata")
             .arg("--edition=2021")
             .arg("-o")
-            .arg(temp_dir.join(format!("decy_verify_{}.rmeta", unique_id)))
+            .arg(temp_dir.join(format!("decy_trace_{}.rmeta", unique_id)))
             .arg(&rust_path)
             .output()
             .map_err(|e| format!("Failed to run rustc: {}", e))?;
 
         // Clean up
         let _ = std::fs::remove_file(&rust_path);
-        let _ = std::fs::remove_file(temp_dir.join(format!("decy_verify_{}.rmeta", unique_id)));
+        let _ = std::fs::remove_file(temp_dir.join(format!("decy_trace_{}.rmeta", unique_id)));
 
         if output.status.success() {
             Ok(())
-- 
2.43.0


From 231ac23e3878768d0444103b0564256238c49658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:05 +0000
Subject: [PATCH 069/103] fix: write through the place, not a copy of it, when
 it is reached through unsafe

---
 crates/decy-codegen/src/stmt_gen.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 2da55e5..e7f4b05 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -813,15 +813,7 @@ impl CodeGenerator {
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
             let value_code = self.generate_expression_with_context(value, ctx);
-            if target_code.starts_with("unsafe { ") {
-                // An element of a global array: the block covers the whole assignment
-                return format!(
-                    "unsafe {{ {} = {}; }}",
-                    Self::strip_nested_unsafe(&target_code),
-                    Self::strip_nested_unsafe(&value_code)
-                );
-            }
-            return format!("{} = {};", target_code, value_code);
+            return Self::assign_to_place(&target_code, &value_code);
         }
 
         // DECY-134: Check for string iteration param - use slice indexing
@@ -963,7 +955,8 @@ impl CodeGenerator {
             if is_global_array {
                 format!("unsafe {{ {}[({}) as usize] = {}; }}", array_code, index_code, value_code)
             } else {
-                format!("{}[({}) as usize] = {};", array_code, index_code, value_code)
+                let place = format!("{}[({}) as usize]", array_code, index_code);
+                Self::assign_to_place(&place, &value_code)
             }
         }
     }
@@ -1003,7 +996,21 @@ impl CodeGenerator {
                 }
             }
             // Regular struct field assignment
-            format!("{}.{} = {};", obj_code, escaped_field, value_code)
+            Self::assign_to_place(&format!("{}.{}", obj_code, escaped_field), &value_code)
+        }
+    }
+
+    /// Assign to a place. A place reached through an unsafe block (a global, a raw pointer) would be
+    /// a copy of it: there the block covers the whole assignment.
+    fn assign_to_place(place: &str, value: &str) -> String {
+        if place.starts_with("unsafe { ") || place.starts_with("/* SAFETY: ") {
+            format!(
+                "unsafe {{ {} = {}; }}",
+                Self::strip_nested_unsafe(place),
+                Self::strip_nested_unsafe(value)
+            )
+        } else {
+            format!("{} = {};", place, value)
         }
     }
 
-- 
2.43.0


From 2dbc7f859890dec5ea524d57f26541dab3809406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:53 +0000
Subject: [PATCH 070/103] fix: parenthesise a ternary branch that starts with a
 commented unsafe block

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index c546b7f..0ec7160 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -469,7 +469,9 @@ impl CodeGenerator {
                 let code = self.generate_expression_with_target_type(branch, ctx, target_type);
                 // A leading block would end the branch as a statement
                 if matches!(branch, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
-                    && ["{", "unsafe {", "if "].iter().any(|block| code.starts_with(block))
+                    && ["{", "unsafe {", "/* SAFETY", "if "]
+                        .iter()
+                        .any(|block| code.starts_with(block))
                 {
                     format!("({})", code)
                 } else {
-- 
2.43.0


From 929bb030318470ee76eb03320ce3a795be3ca2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 071/103] fix: see writes and pointer steps in switch arms and
 for headers

---
 crates/decy-ownership/src/dataflow.rs | 36 ++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/decy-ownership/src/dataflow.rs b/crates/decy-ownership/src/dataflow.rs
index db876cc..dc9f1a7 100644
--- a/crates/decy-ownership/src/dataflow.rs
+++ b/crates/decy-ownership/src/dataflow.rs
@@ -181,9 +181,19 @@ impl DataflowGraph {
                         .as_ref()
                         .is_some_and(|blk| blk.iter().any(|s| self.statement_modifies_var(s, var)))
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_modifies_var(s, var))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_modifies_var(s, var)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_modifies_var(s, var)),
             _ => false,
         }
     }
@@ -295,9 +305,19 @@ impl DataflowGraph {
                         blk.iter().any(|s| self.statement_has_array_indexing(s, var))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_has_array_indexing(s, var))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_has_array_indexing(s, var)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_has_array_indexing(s, var)),
             _ => false,
         }
     }
@@ -331,9 +351,19 @@ impl DataflowGraph {
                         blk.iter().any(|s| self.statement_has_pointer_arithmetic(s, var))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_has_pointer_arithmetic(s, var))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_has_pointer_arithmetic(s, var)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_has_pointer_arithmetic(s, var)),
             _ => false,
         }
     }
-- 
2.43.0


From abcbefa194a4bb405be229ed3c74a063622c1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 072/103] fix: variables of the same scope have equal lifetimes

---
 crates/decy-ownership/src/lifetime.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/decy-ownership/src/lifetime.rs b/crates/decy-ownership/src/lifetime.rs
index 2494b0d..5b4689f 100644
--- a/crates/decy-ownership/src/lifetime.rs
+++ b/crates/decy-ownership/src/lifetime.rs
@@ -382,15 +382,15 @@ impl LifetimeAnalyzer {
         let scope2_in_scope1 =
             scope_tree.is_nested_in(lifetime2.declared_in_scope, lifetime1.declared_in_scope);
 
-        if scope1_in_scope2 {
+        if lifetime1.declared_in_scope == lifetime2.declared_in_scope {
+            // Same scope - equal lifetimes
+            LifetimeRelation::Equal
+        } else if scope1_in_scope2 {
             // Variable 2 outlives variable 1 (variable 1 is in nested scope)
             LifetimeRelation::OutlivedBy
         } else if scope2_in_scope1 {
             // Variable 1 outlives variable 2
             LifetimeRelation::Outlives
-        } else if lifetime1.declared_in_scope == lifetime2.declared_in_scope {
-            // Same scope - equal lifetimes
-            LifetimeRelation::Equal
         } else {
             // Different branches - independent
             LifetimeRelation::Independent
-- 
2.43.0


From 9ec9edc4e96233559bd5f2c3aefaaa19ebe8b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 073/103] fix: see reads of a parameter in casts, ternaries and
 element or field assignments

---
 crates/decy-analyzer/src/output_params.rs | 32 ++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/output_params.rs b/crates/decy-analyzer/src/output_params.rs
index 6d466de..c8bbdd1 100644
--- a/crates/decy-analyzer/src/output_params.rs
+++ b/crates/decy-analyzer/src/output_params.rs
@@ -234,10 +234,22 @@ impl OutputParamDetector {
                 }
             }
 
-            HirStatement::Expression(expr) => {
+            HirStatement::Expression(expr) | HirStatement::Free { pointer: expr } => {
                 Self::analyze_expression_internal(expr, reads);
             }
 
+            // Element and field assignments can read from parameters
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                Self::analyze_expression_internal(array, reads);
+                Self::analyze_expression_internal(index, reads);
+                Self::analyze_expression_internal(value, reads);
+            }
+
+            HirStatement::FieldAssignment { object, value, .. } => {
+                Self::analyze_expression_internal(object, reads);
+                Self::analyze_expression_internal(value, reads);
+            }
+
             _ => {}
         }
     }
@@ -290,6 +302,24 @@ impl OutputParamDetector {
                 Self::analyze_expression_internal(index, reads);
             }
 
+            // Casts, address-of and in-place increments
+            HirExpression::Cast { expr: inner, .. }
+            | HirExpression::AddressOf(inner)
+            | HirExpression::IsNotNull(inner)
+            | HirExpression::PostIncrement { operand: inner }
+            | HirExpression::PreIncrement { operand: inner }
+            | HirExpression::PostDecrement { operand: inner }
+            | HirExpression::PreDecrement { operand: inner } => {
+                Self::analyze_expression_internal(inner, reads);
+            }
+
+            // Ternaries
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::analyze_expression_internal(condition, reads);
+                Self::analyze_expression_internal(then_expr, reads);
+                Self::analyze_expression_internal(else_expr, reads);
+            }
+
             _ => {}
         }
     }
-- 
2.43.0


From b12d0cfa3d2436b94accb03dd09be8c8961580cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 074/103] fix: see pointer steps and writes in switch arms and
 for headers when choosing parameter types

A parameter stepped (p++) or written (*p = v) only inside a switch arm or a
for header was classified as if it were not, so the signature got an immutable
or non-steppable reference and the translation did not compile.
---
 crates/decy-codegen/src/func_gen.rs      | 36 ++++++++++++++++++++++--
 crates/decy-core/src/lib.rs              | 12 +++++++-
 crates/decy-ownership/src/array_slice.rs | 12 +++++++-
 crates/decy-ownership/src/borrow_gen.rs  | 12 +++++++-
 4 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/func_gen.rs b/crates/decy-codegen/src/func_gen.rs
index 7a51bfc..d42641b 100644
--- a/crates/decy-codegen/src/func_gen.rs
+++ b/crates/decy-codegen/src/func_gen.rs
@@ -501,9 +501,19 @@ impl CodeGenerator {
                         blk.iter().any(|s| self.statement_deref_modifies_variable(s, var_name))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_deref_modifies_variable(s, var_name))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_deref_modifies_variable(s, var_name)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|c| &c.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_deref_modifies_variable(s, var_name)),
             _ => false,
         }
     }
@@ -662,9 +672,19 @@ impl CodeGenerator {
             HirStatement::Expression(expr) => {
                 Self::expression_uses_pointer_arithmetic_static(expr, var_name)
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_uses_pointer_arithmetic(s, var_name))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_uses_pointer_arithmetic(s, var_name)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|c| &c.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_uses_pointer_arithmetic(s, var_name)),
             _ => false,
         }
     }
@@ -827,9 +847,19 @@ impl CodeGenerator {
                         blk.iter().any(|s| self.statement_modifies_variable(s, var_name))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| self.statement_modifies_variable(s, var_name))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| self.statement_modifies_variable(s, var_name)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|c| &c.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_modifies_variable(s, var_name)),
             _ => false,
         }
     }
diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 7ad31da..9574c96 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1899,9 +1899,19 @@ fn statement_uses_pointer_arithmetic(stmt: &HirStatement, var_name: &str) -> boo
                     blk.iter().any(|s| statement_uses_pointer_arithmetic(s, var_name))
                 })
         }
-        HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+        HirStatement::While { body, .. } => {
             body.iter().any(|s| statement_uses_pointer_arithmetic(s, var_name))
         }
+        HirStatement::For { init, increment, body, .. } => init
+            .iter()
+            .chain(increment)
+            .chain(body)
+            .any(|s| statement_uses_pointer_arithmetic(s, var_name)),
+        HirStatement::Switch { cases, default_case, .. } => cases
+            .iter()
+            .flat_map(|c| &c.body)
+            .chain(default_case.iter().flatten())
+            .any(|s| statement_uses_pointer_arithmetic(s, var_name)),
         _ => false,
     }
 }
diff --git a/crates/decy-ownership/src/array_slice.rs b/crates/decy-ownership/src/array_slice.rs
index 9de5446..9e7d5ca 100644
--- a/crates/decy-ownership/src/array_slice.rs
+++ b/crates/decy-ownership/src/array_slice.rs
@@ -308,9 +308,19 @@ impl ArrayParameterTransformer {
                         blk.iter().any(|s| Self::statement_uses_pointer_arithmetic(s, var_name))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| Self::statement_uses_pointer_arithmetic(s, var_name))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| Self::statement_uses_pointer_arithmetic(s, var_name)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|c| &c.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| Self::statement_uses_pointer_arithmetic(s, var_name)),
             _ => false,
         }
     }
diff --git a/crates/decy-ownership/src/borrow_gen.rs b/crates/decy-ownership/src/borrow_gen.rs
index a0ce4ed..b5024d3 100644
--- a/crates/decy-ownership/src/borrow_gen.rs
+++ b/crates/decy-ownership/src/borrow_gen.rs
@@ -857,9 +857,19 @@ impl BorrowGenerator {
                         blk.iter().any(|s| Self::statement_uses_pointer_arithmetic(s, var_name))
                     })
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
+            HirStatement::While { body, .. } => {
                 body.iter().any(|s| Self::statement_uses_pointer_arithmetic(s, var_name))
             }
+            HirStatement::For { init, increment, body, .. } => init
+                .iter()
+                .chain(increment)
+                .chain(body)
+                .any(|s| Self::statement_uses_pointer_arithmetic(s, var_name)),
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|c| &c.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| Self::statement_uses_pointer_arithmetic(s, var_name)),
             _ => false,
         }
     }
-- 
2.43.0


From 722589eb39aaa65a528e841ba9b35e3a2847ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 075/103] fix: see fork, exec and wait in switch arms and a pid
 assigned from fork

---
 crates/decy-analyzer/src/subprocess_analysis.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/decy-analyzer/src/subprocess_analysis.rs b/crates/decy-analyzer/src/subprocess_analysis.rs
index 10daff6..1c75efd 100644
--- a/crates/decy-analyzer/src/subprocess_analysis.rs
+++ b/crates/decy-analyzer/src/subprocess_analysis.rs
@@ -70,6 +70,13 @@ impl SubprocessDetector {
                 }
                 self.analyze_expression(init, pattern);
             }
+            HirStatement::Assignment { target, value } => {
+                if self.is_fork_call(value) {
+                    pattern.has_fork = true;
+                    pattern.pid_var = Some(target.clone());
+                }
+                self.analyze_expression(value, pattern);
+            }
             HirStatement::Expression(expr) => {
                 self.analyze_expression(expr, pattern);
             }
@@ -82,6 +89,14 @@ impl SubprocessDetector {
             HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
                 self.analyze_statements(body, pattern);
             }
+            HirStatement::Switch { cases, default_case, .. } => {
+                for case in cases {
+                    self.analyze_statements(&case.body, pattern);
+                }
+                if let Some(default_stmts) = default_case {
+                    self.analyze_statements(default_stmts, pattern);
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 47682095b06ca6f1fe524c8a3348403e35ac72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 076/103] fix: see uses of a void pointer in assignments, for
 headers and switch arms

---
 crates/decy-analyzer/src/void_ptr_analysis.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/void_ptr_analysis.rs b/crates/decy-analyzer/src/void_ptr_analysis.rs
index 1841cc8..0e9023f 100644
--- a/crates/decy-analyzer/src/void_ptr_analysis.rs
+++ b/crates/decy-analyzer/src/void_ptr_analysis.rs
@@ -168,8 +168,25 @@ impl VoidPtrAnalyzer {
                 self.analyze_expression(condition, param_name, info);
                 self.analyze_body(body, param_name, info);
             }
-            HirStatement::For { body, .. } => {
+            HirStatement::For { init, condition, increment, body } => {
+                self.analyze_body(init, param_name, info);
+                if let Some(cond) = condition {
+                    self.analyze_expression(cond, param_name, info);
+                }
                 self.analyze_body(body, param_name, info);
+                self.analyze_body(increment, param_name, info);
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.analyze_expression(condition, param_name, info);
+                for case in cases {
+                    self.analyze_body(&case.body, param_name, info);
+                }
+                if let Some(default_stmts) = default_case {
+                    self.analyze_body(default_stmts, param_name, info);
+                }
+            }
+            HirStatement::Assignment { value, .. } => {
+                self.analyze_expression(value, param_name, info);
             }
             HirStatement::Expression(expr) => {
                 self.analyze_expression(expr, param_name, info);
-- 
2.43.0


From 7202d31fdc72d887482001a8d91081349265d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 077/103] fix: variables declared in for loops and switch arms
 have a scope

---
 crates/decy-ownership/src/lifetime.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/decy-ownership/src/lifetime.rs b/crates/decy-ownership/src/lifetime.rs
index 5b4689f..facc4c0 100644
--- a/crates/decy-ownership/src/lifetime.rs
+++ b/crates/decy-ownership/src/lifetime.rs
@@ -182,6 +182,32 @@ impl LifetimeAnalyzer {
                         tree.add_scope(current_scope, (body_start, body_start + body.len()));
                     index = self.analyze_statements(body, tree, body_scope, body_start);
                 }
+                HirStatement::For { init, body, .. } => {
+                    // The header's variables and the body share the scope of the loop
+                    let body_start = index + 1;
+                    let body_scope = tree.add_scope(
+                        current_scope,
+                        (body_start, body_start + init.len() + body.len()),
+                    );
+                    index = self.analyze_statements(init, tree, body_scope, body_start);
+                    index = self.analyze_statements(body, tree, body_scope, index);
+                }
+                HirStatement::Switch { cases, default_case, .. } => {
+                    // The arms of a switch share one scope
+                    let arms_start = index + 1;
+                    let arms = || {
+                        cases
+                            .iter()
+                            .map(|case| case.body.as_slice())
+                            .chain(default_case.iter().map(|arm| arm.as_slice()))
+                    };
+                    let len: usize = arms().map(|arm| arm.len()).sum();
+                    let scope = tree.add_scope(current_scope, (arms_start, arms_start + len));
+                    index = arms_start;
+                    for arm in arms() {
+                        index = self.analyze_statements(arm, tree, scope, index);
+                    }
+                }
                 _ => {
                     index += 1;
                 }
-- 
2.43.0


From 5c208a227497a7b15e5fcf821128eabd65d9b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:01 +0000
Subject: [PATCH 078/103] fix: keep adjacent string literals and quotes at the
 ends of a string

Only the first of adjacent literals was read, and an escaped quote at either end
of a string was trimmed with the delimiters, leaving a dangling backslash.
---
 crates/decy-parser/src/extract/expressions.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index e45892f..5b538c6 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -475,15 +475,19 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     let mut value = String::new();
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
+        // SAFETY: Get the spelling of each token: adjacent literals are one string
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
-                // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+            for i in 0..num_tokens {
+                let token_cxstring = clang_getTokenSpelling(tu, *tokens.add(i as usize));
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
+                if let Ok(token_str) = c_str.to_str() {
+                    // Remove the surrounding quotes, but no quote of the text itself
+                    if let Some((_, text)) = token_str.split_once('"') {
+                        value.push_str(text.strip_suffix('"').unwrap_or(text));
+                    }
+                }
+                clang_disposeString(token_cxstring);
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
-- 
2.43.0


From ffa0fb3706a0c7ec17c90f4de31b4a2351319dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:01 +0000
Subject: [PATCH 079/103] fix: float literals like .5 and 2. are given the
 digit Rust wants

---
 crates/decy-codegen/src/expr_gen/literals.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index ce9d822..c1fb579 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -21,7 +21,16 @@ impl CodeGenerator {
         val: &str,
         target_type: Option<&HirType>,
     ) -> String {
-        let val_stripped = val.trim_end_matches(['f', 'F', 'l', 'L']);
+        let mut val_stripped = val.trim_end_matches(['f', 'F', 'l', 'L']).to_string();
+        // Rust wants a digit on both sides of the point
+        if let Some(point) = val_stripped.find('.') {
+            if !val_stripped[point + 1..].starts_with(|c: char| c.is_ascii_digit()) {
+                val_stripped.insert(point + 1, '0');
+            }
+            if point == 0 {
+                val_stripped.insert(0, '0');
+            }
+        }
         match target_type {
             Some(HirType::Float) => format!("{}f32", val_stripped),
             Some(HirType::Double) => format!("{}f64", val_stripped),
-- 
2.43.0


From fc0ef12401b9a85f07a1d98fb417b1a4034fadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:01 +0000
Subject: [PATCH 080/103] fix: octal escapes, \a, \b, \f, \v and \? in strings
 are written as Rust escapes

---
 crates/decy-codegen/src/expr_gen/literals.rs | 41 +++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index c1fb579..6ecb79d 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -121,7 +121,46 @@ impl CodeGenerator {
                 return format!("b\"{}\\0\".as_ptr() as *mut u8", escaped);
             }
         }
-        format!("\"{}\"", s)
+        format!("\"{}\"", Self::rust_escapes(s))
+    }
+
+    /// Rewrites the escapes of a C string that Rust does not know: octal ones, \a, \b, \f, \v, \?
+    fn rust_escapes(s: &str) -> String {
+        let mut out = String::new();
+        let mut rest = s.chars().peekable();
+        while let Some(c) = rest.next() {
+            if c != '\\' {
+                out.push(c);
+                continue;
+            }
+            match rest.next() {
+                Some(first @ '0'..='7') => {
+                    let mut code = first.to_digit(8).unwrap_or(0);
+                    for _ in 0..2 {
+                        match rest.peek().and_then(|d| d.to_digit(8)) {
+                            Some(digit) => {
+                                code = code * 8 + digit;
+                                rest.next();
+                            }
+                            None => break,
+                        }
+                    }
+                    match code {
+                        0 => out.push_str("\\0"),
+                        1..=0x7f => out.push_str(&format!("\\x{:02x}", code)),
+                        _ => out.push_str(&format!("\\u{{{:x}}}", code)),
+                    }
+                }
+                Some('a') => out.push_str("\\x07"),
+                Some('b') => out.push_str("\\x08"),
+                Some('f') => out.push_str("\\x0c"),
+                Some('v') => out.push_str("\\x0b"),
+                Some('?') => out.push('?'),
+                Some(other) => out.extend(['\\', other]),
+                None => out.push('\\'),
+            }
+        }
+        out
     }
 
     pub(crate) fn gen_expr_char_literal(c: i8) -> String {
-- 
2.43.0


From db056ec36a2bfa6cbb69419fd2b995d75d72cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:01 +0000
Subject: [PATCH 081/103] fix: a comma expression is boolean when its right
 operand is

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 2 +-
 crates/decy-codegen/src/expr_gen/misc.rs       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index eeacf9d..832fbf8 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -46,7 +46,7 @@ impl CodeGenerator {
 
         if matches!(op, BinaryOperator::Comma) {
             let left_code = self.generate_expression_with_context(left, ctx);
-            let right_code = self.generate_expression_with_context(right, ctx);
+            let right_code = self.generate_expression_with_target_type(right, ctx, target_type);
             return format!("{{ {}; {} }}", left_code, right_code);
         }
 
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 0ec7160..9530754 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -515,6 +515,10 @@ impl CodeGenerator {
     /// Used to avoid redundant `!= 0` conversions for expressions that are already boolean.
     pub(crate) fn is_boolean_expression(expr: &HirExpression) -> bool {
         match expr {
+            // A comma expression is its right operand
+            HirExpression::BinaryOp { op: BinaryOperator::Comma, right, .. } => {
+                Self::is_boolean_expression(right)
+            }
             // Comparison operators always produce bool
             HirExpression::BinaryOp { op, .. } => matches!(
                 op,
-- 
2.43.0


From 3bf92470ae0a7940f88596146bd026b5d051afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 082/103] fix: parenthesise a comma operand that starts with a
 block

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  2 ++
 crates/decy-codegen/src/expr_gen/misc.rs      | 23 +++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 832fbf8..4d6fff8 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -47,6 +47,8 @@ impl CodeGenerator {
         if matches!(op, BinaryOperator::Comma) {
             let left_code = self.generate_expression_with_context(left, ctx);
             let right_code = self.generate_expression_with_target_type(right, ctx, target_type);
+            let left_code = Self::parenthesise_leading_block(left, left_code);
+            let right_code = Self::parenthesise_leading_block(right, right_code);
             return format!("{{ {}; {} }}", left_code, right_code);
         }
 
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 9530754..c71232d 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -467,16 +467,7 @@ impl CodeGenerator {
                 format!("({}) as i32", code)
             } else {
                 let code = self.generate_expression_with_target_type(branch, ctx, target_type);
-                // A leading block would end the branch as a statement
-                if matches!(branch, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
-                    && ["{", "unsafe {", "/* SAFETY", "if "]
-                        .iter()
-                        .any(|block| code.starts_with(block))
-                {
-                    format!("({})", code)
-                } else {
-                    code
-                }
+                Self::parenthesise_leading_block(branch, code)
             }
         };
         let then_code = branch_code(then_expr);
@@ -491,6 +482,18 @@ impl CodeGenerator {
         format!("if {} {{ {} }} else {{ {} }}", cond_bool, then_code, else_code)
     }
 
+    /// Parenthesise an operation whose code starts with a block: at the start of a statement
+    /// or of a block's value, Rust would end the statement at that block.
+    pub(crate) fn parenthesise_leading_block(expr: &HirExpression, code: String) -> String {
+        if matches!(expr, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. })
+            && ["{", "unsafe {", "/* SAFETY", "if "].iter().any(|block| code.starts_with(block))
+        {
+            format!("({})", code)
+        } else {
+            code
+        }
+    }
+
     /// Convert unary operator to string.
     pub(crate) fn unary_operator_to_string(op: &decy_hir::UnaryOperator) -> &'static str {
         use decy_hir::UnaryOperator;
-- 
2.43.0


From 43432b5e5f86df1b51ad8f8b9c9344587455f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:57 +0000
Subject: [PATCH 083/103] fix: no Eq on a struct whose arrays or nested structs
 may hold floats

---
 crates/decy-codegen/src/type_gen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index e9b3d6e..133a1ac 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -25,10 +25,15 @@ impl CodeGenerator {
         });
 
         // DECY-218: Check if struct has float/double fields (f32/f64 don't implement Eq)
-        let has_float_fields = hir_struct
-            .fields()
-            .iter()
-            .any(|f| matches!(f.field_type(), HirType::Float | HirType::Double));
+        // A nested struct may hold floats, which we can't check here
+        fn may_hold_floats(ty: &HirType) -> bool {
+            match ty {
+                HirType::Float | HirType::Double | HirType::Struct(_) => true,
+                HirType::Array { element_type, .. } => may_hold_floats(element_type),
+                _ => false,
+            }
+        }
+        let has_float_fields = hir_struct.fields().iter().any(|f| may_hold_floats(f.field_type()));
 
         // DECY-225: Check if struct can derive Copy (only primitive types, no pointers/Box/Vec/String)
         // Helper to check if a type is Copy-able
-- 
2.43.0


From 37dda4b24d29bd4b765da189f9f073f68ada0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:30 +0000
Subject: [PATCH 084/103] fix: a negative index of a raw pointer steps back

---
 crates/decy-codegen/src/expr_gen/misc.rs | 17 ++++++++++++++++-
 crates/decy-codegen/src/stmt_gen.rs      |  3 ++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index c71232d..10ddad7 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -63,7 +63,7 @@ impl CodeGenerator {
 
         if is_raw_pointer {
             return Self::unsafe_block(
-                &format!("*{}.add(({}) as usize)", array_code, index_code),
+                &format!("*{}.{}", array_code, Self::raw_index_step(index, &index_code, ctx)),
                 "index is within bounds of allocated array",
             );
         }
@@ -76,6 +76,21 @@ impl CodeGenerator {
         }
     }
 
+    /// Step from a raw pointer to an element: a signed index may be negative.
+    pub(crate) fn raw_index_step(
+        index: &HirExpression,
+        index_code: &str,
+        ctx: &TypeContext,
+    ) -> String {
+        let may_be_negative = !matches!(index, HirExpression::IntLiteral(n) if *n >= 0)
+            && matches!(ctx.infer_expression_type(index), Some(HirType::Int));
+        if may_be_negative || matches!(index, HirExpression::UnaryOp { .. }) {
+            format!("wrapping_add(({}) as i32 as usize)", index_code)
+        } else {
+            format!("add(({}) as usize)", index_code)
+        }
+    }
+
     pub(crate) fn gen_expr_sizeof(&self, type_name: &str, ctx: &TypeContext) -> String {
         let trimmed = type_name.trim();
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index e7f4b05..ca6080c 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -944,8 +944,9 @@ impl CodeGenerator {
         if is_raw_pointer {
             // Raw pointer indexing: arr[i] = v becomes unsafe { *arr.add(i as usize) = v }
             // DECY-143: Add SAFETY comment
+            let step = Self::raw_index_step(index, &index_code, ctx);
             Self::unsafe_stmt(
-                &format!("*{}.add(({}) as usize) = {}", array_code, index_code, value_code),
+                &format!("*{}.{} = {}", array_code, step, value_code),
                 "index is within bounds of allocated array",
             )
         } else {
-- 
2.43.0


From dea959e1b3ea760cf81b838f557f80bfeeb4963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:10 +0000
Subject: [PATCH 085/103] fix: a struct of structs is Copy when they all are

---
 crates/decy-codegen/src/type_gen.rs | 43 +++++++++++++++++++++--------
 crates/decy-core/src/lib.rs         |  4 +--
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index 133a1ac..73e9045 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -9,6 +9,15 @@ impl CodeGenerator {
     /// Generates Rust struct code with automatic derives for Debug, Clone, PartialEq, Eq.
     /// Handles lifetimes automatically for structs with reference fields.
     pub fn generate_struct(&self, hir_struct: &decy_hir::HirStruct) -> String {
+        self.generate_struct_among(hir_struct, &[])
+    }
+
+    /// Generate a struct definition, given the structs its fields may be made of.
+    pub fn generate_struct_among(
+        &self,
+        hir_struct: &decy_hir::HirStruct,
+        known: &[decy_hir::HirStruct],
+    ) -> String {
         let mut code = String::new();
 
         // Check if struct needs lifetimes (has Reference fields)
@@ -25,19 +34,25 @@ impl CodeGenerator {
         });
 
         // DECY-218: Check if struct has float/double fields (f32/f64 don't implement Eq)
-        // A nested struct may hold floats, which we can't check here
-        fn may_hold_floats(ty: &HirType) -> bool {
+        // An unknown nested struct may hold floats
+        fn may_hold_floats(ty: &HirType, known: &[decy_hir::HirStruct]) -> bool {
             match ty {
-                HirType::Float | HirType::Double | HirType::Struct(_) => true,
-                HirType::Array { element_type, .. } => may_hold_floats(element_type),
+                HirType::Float | HirType::Double => true,
+                HirType::Array { element_type, .. } => may_hold_floats(element_type, known),
+                HirType::Struct(name) => {
+                    known.iter().find(|s| s.name() == name).map_or(true, |s| {
+                        s.fields().iter().any(|f| may_hold_floats(f.field_type(), known))
+                    })
+                }
                 _ => false,
             }
         }
-        let has_float_fields = hir_struct.fields().iter().any(|f| may_hold_floats(f.field_type()));
+        let has_float_fields =
+            hir_struct.fields().iter().any(|f| may_hold_floats(f.field_type(), known));
 
         // DECY-225: Check if struct can derive Copy (only primitive types, no pointers/Box/Vec/String)
         // Helper to check if a type is Copy-able
-        fn is_copy_type(ty: &HirType) -> bool {
+        fn is_copy_type(ty: &HirType, known: &[decy_hir::HirStruct]) -> bool {
             match ty {
                 HirType::Int
                 | HirType::UnsignedInt
@@ -47,7 +62,7 @@ impl CodeGenerator {
                 | HirType::Char
                 | HirType::SignedChar // DECY-250
                 | HirType::Void => true,
-                HirType::Array { element_type, .. } => is_copy_type(element_type),
+                HirType::Array { element_type, .. } => is_copy_type(element_type, known),
                 // DECY-246: Raw pointers (*mut T, *const T) ARE Copy in Rust!
                 HirType::Pointer(_) => true,
                 // Box, Vec, String, References are not Copy
@@ -57,9 +72,13 @@ impl CodeGenerator {
                 | HirType::StringReference
                 | HirType::StringLiteral
                 | HirType::Reference { .. } => false,
-                // Struct fields need the inner struct to be Copy, which we can't check here
-                // Be conservative and don't derive Copy
-                HirType::Struct(_) | HirType::Enum(_) | HirType::Union(_) => false,
+                // Struct fields need the inner struct to be Copy: if it is unknown,
+                // be conservative and don't derive Copy
+                HirType::Struct(name) => known
+                    .iter()
+                    .find(|s| s.name() == name)
+                    .is_some_and(|s| s.fields().iter().all(|f| is_copy_type(f.field_type(), known))),
+                HirType::Enum(_) | HirType::Union(_) => false,
                 // Function pointers are not Copy (they could be wrapped in Option)
                 HirType::FunctionPointer { .. } => false,
                 // Type aliases (like size_t) are Copy
@@ -68,8 +87,8 @@ impl CodeGenerator {
             }
         }
 
-        let can_derive_copy =
-            !needs_lifetimes && hir_struct.fields().iter().all(|f| is_copy_type(f.field_type()));
+        let can_derive_copy = !needs_lifetimes
+            && hir_struct.fields().iter().all(|f| is_copy_type(f.field_type(), known));
 
         // Add derive attribute
         // DECY-114: Add Default derive for struct initialization with ::default()
diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 9574c96..0c2cd5c 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1232,7 +1232,7 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         }
         emitted_structs.insert(struct_name.to_string());
 
-        let struct_code = code_generator.generate_struct(hir_struct);
+        let struct_code = code_generator.generate_struct_among(hir_struct, &hir_structs);
         rust_code.push_str(&struct_code);
         rust_code.push('\n');
     }
@@ -1481,7 +1481,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
             continue;
         }
         emitted_structs.insert(struct_name.to_string());
-        let struct_code = code_generator.generate_struct(hir_struct);
+        let struct_code = code_generator.generate_struct_among(hir_struct, &hir_structs);
         rust_code.push_str(&struct_code);
         rust_code.push('\n');
     }
-- 
2.43.0


From fdf2618b7fe2dd331da317313c55ce6593dee4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:23 +0000
Subject: [PATCH 086/103] fix: structs with arrays of more than 32 elements
 have a Default

---
 crates/decy-codegen/src/type_gen.rs | 44 +++++++++++++++++++++++++----
 crates/decy-core/src/lib.rs         |  2 ++
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index 73e9045..718505f 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -12,6 +12,42 @@ impl CodeGenerator {
         self.generate_struct_among(hir_struct, &[])
     }
 
+    /// Whether a type is an array without a Default (of more than 32 elements, in any dimension).
+    fn is_large_array(ty: &HirType) -> bool {
+        match ty {
+            HirType::Array { element_type, size } => {
+                size.is_some_and(|n| n > 32) || Self::is_large_array(element_type)
+            }
+            _ => false,
+        }
+    }
+
+    /// Generate the Default of a struct whose arrays are too large to derive it, or nothing.
+    pub fn generate_large_struct_default(&self, hir_struct: &decy_hir::HirStruct) -> String {
+        fn default_of(ty: &HirType) -> String {
+            match ty {
+                HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
+                HirType::Array { element_type, size: Some(_) } => {
+                    format!("std::array::from_fn(|_| {})", default_of(element_type))
+                }
+                _ => "Default::default()".to_string(),
+            }
+        }
+        if !hir_struct.fields().iter().any(|f| Self::is_large_array(f.field_type())) {
+            return String::new();
+        }
+        let fields: Vec<String> = hir_struct
+            .fields()
+            .iter()
+            .map(|f| format!("{}: {}", escape_rust_keyword(f.name()), default_of(f.field_type())))
+            .collect();
+        format!(
+            "impl Default for {} {{\n    fn default() -> Self {{\n        Self {{ {} }}\n    }}\n}}\n",
+            hir_struct.name(),
+            fields.join(", ")
+        )
+    }
+
     /// Generate a struct definition, given the structs its fields may be made of.
     pub fn generate_struct_among(
         &self,
@@ -26,12 +62,8 @@ impl CodeGenerator {
 
         // DECY-123: Check if struct has large arrays (> 32 elements) that don't impl Default
         // Rust arrays only implement Default for sizes up to 32
-        let has_large_array = hir_struct.fields().iter().any(|f| {
-            matches!(
-                f.field_type(),
-                HirType::Array { size: Some(n), .. } if *n > 32
-            )
-        });
+        let has_large_array =
+            hir_struct.fields().iter().any(|f| Self::is_large_array(f.field_type()));
 
         // DECY-218: Check if struct has float/double fields (f32/f64 don't implement Eq)
         // An unknown nested struct may hold floats
diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 0c2cd5c..8d86c95 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1235,6 +1235,7 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         let struct_code = code_generator.generate_struct_among(hir_struct, &hir_structs);
         rust_code.push_str(&struct_code);
         rust_code.push('\n');
+        rust_code.push_str(&code_generator.generate_large_struct_default(hir_struct));
     }
 
     // DECY-240: Generate enum definitions (as const i32 values)
@@ -1484,6 +1485,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         let struct_code = code_generator.generate_struct_among(hir_struct, &hir_structs);
         rust_code.push_str(&struct_code);
         rust_code.push('\n');
+        rust_code.push_str(&code_generator.generate_large_struct_default(hir_struct));
     }
 
     // DECY-240: Generate enum definitions (as const i32 values)
-- 
2.43.0


From 19fc74a4a453aed484ac892c825ec0059db2150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:53 +0000
Subject: [PATCH 087/103] fix: octal escapes, \a, \b, \f and \v in the text of
 a char array

---
 crates/decy-codegen/src/expr_gen/literals.rs | 8 +++++---
 crates/decy-codegen/src/stmt_gen.rs          | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 6ecb79d..73817fc 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -121,11 +121,11 @@ impl CodeGenerator {
                 return format!("b\"{}\\0\".as_ptr() as *mut u8", escaped);
             }
         }
-        format!("\"{}\"", Self::rust_escapes(s))
+        format!("\"{}\"", Self::rust_escapes(s, false))
     }
 
     /// Rewrites the escapes of a C string that Rust does not know: octal ones, \a, \b, \f, \v, \?
-    fn rust_escapes(s: &str) -> String {
+    pub(crate) fn rust_escapes(s: &str, in_bytes: bool) -> String {
         let mut out = String::new();
         let mut rest = s.chars().peekable();
         while let Some(c) = rest.next() {
@@ -147,7 +147,9 @@ impl CodeGenerator {
                     }
                     match code {
                         0 => out.push_str("\\0"),
-                        1..=0x7f => out.push_str(&format!("\\x{:02x}", code)),
+                        _ if in_bytes || code <= 0x7f => {
+                            out.push_str(&format!("\\x{:02x}", code & 0xff))
+                        }
                         _ => out.push_str(&format!("\\u{{{:x}}}", code)),
                     }
                 }
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index ca6080c..ea45a0a 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -276,7 +276,7 @@ impl CodeGenerator {
                         c => escaped.push(c),
                     }
                 }
-                code.push_str(&format!(" = *b\"{}\\0\";", escaped));
+                code.push_str(&format!(" = *b\"{}\\0\";", Self::rust_escapes(&escaped, true)));
             } else {
                 code.push_str(&format!(
                     " = {};",
-- 
2.43.0


From cd5fa82da7357cbcbc1aefcb0f6fe6245a228957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:43 +0000
Subject: [PATCH 088/103] fix: a char array longer than its text is filled with
 zeros

---
 crates/decy-codegen/src/stmt_gen.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index ea45a0a..83521ca 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -276,7 +276,33 @@ impl CodeGenerator {
                         c => escaped.push(c),
                     }
                 }
-                code.push_str(&format!(" = *b\"{}\\0\";", Self::rust_escapes(&escaped, true)));
+                let mut text = Self::rust_escapes(&escaped, true);
+                // The rest of the array is zero, and a full one has no terminator
+                let mut len = 0;
+                let mut bytes = text.chars();
+                while let Some(c) = bytes.next() {
+                    if c == '\\' && bytes.next() == Some('x') {
+                        bytes.nth(1);
+                    }
+                    len += c.len_utf8();
+                }
+                let size = match var_type {
+                    HirType::Array { size: Some(size), .. } => *size,
+                    _ => len + 1,
+                };
+                if size > len {
+                    text.push_str("\\0");
+                }
+                if size > len + 1 {
+                    code.push_str(&format!(
+                        " = {{ let mut __text = [0u8; {}]; __text[..{}].copy_from_slice(&*b\"{}\"); __text }};",
+                        size,
+                        len + 1,
+                        text
+                    ));
+                } else {
+                    code.push_str(&format!(" = *b\"{}\";", text));
+                }
             } else {
                 code.push_str(&format!(
                     " = {};",
-- 
2.43.0


From 7959dfa6eba2d1a5ff35843866a32cf279c19455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 089/103] fix: an expression statement evaluates the operands C
 evaluates

a && f();, a || f(); and c ? f() : g(); as statements ran every call in them or
none, and an increment inside an operand of a unary operator was taken for the
statement's own.
---
 crates/decy-parser/src/extract/mod.rs        | 85 ++++++++++++++++++--
 crates/decy-parser/src/extract/statements.rs |  4 +-
 2 files changed, 82 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 40fa4f5..4e2370e 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -253,6 +253,64 @@ pub(crate) extern "C" fn visit_function(
     CXChildVisit_Recurse
 }
 
+/// Add `a && b;`, `a || b;` or `c ? a : b;` as the if statement that evaluates the same operands.
+fn push_conditional_stmt(cursor: CXCursor, statements: &mut Vec<Statement>) {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        // SAFETY: Converting client data back to the vector of operands
+        unsafe { &mut *(client_data as *mut Vec<CXCursor>) }.push(cursor);
+        CXChildVisit_Continue
+    }
+    fn effects(cursor: CXCursor) -> Vec<Statement> {
+        let mut block: Vec<Statement> = Vec::new();
+        let data = &mut block as *mut Vec<Statement> as CXClientData;
+        if visit_statement(cursor, cursor, data) == CXChildVisit_Recurse {
+            // SAFETY: The visitor gets the vector it expects
+            unsafe { clang_visitChildren(cursor, visit_statement, data) };
+        }
+        block
+    }
+
+    let mut operands: Vec<CXCursor> = Vec::new();
+    // SAFETY: The visitor gets the vector it expects
+    unsafe { clang_visitChildren(cursor, collect, &mut operands as *mut _ as CXClientData) };
+    let condition = match operands.first() {
+        Some(first) => expressions::extract_expression_from_cursor(*first),
+        None => None,
+    };
+    let Some(condition) = condition else { return };
+
+    match operands[1..] {
+        [then, otherwise] => {
+            let else_block = effects(otherwise);
+            statements.push(Statement::If {
+                condition,
+                then_block: effects(then),
+                else_block: (!else_block.is_empty()).then_some(else_block),
+            });
+        }
+        [right] => {
+            let condition = match expressions::extract_binary_operator(cursor) {
+                Some(BinaryOperator::LogicalAnd) => condition,
+                Some(BinaryOperator::LogicalOr) => Expression::UnaryOp {
+                    op: UnaryOperator::LogicalNot,
+                    operand: Box::new(condition),
+                },
+                _ => return,
+            };
+            statements.push(Statement::If {
+                condition,
+                then_block: effects(right),
+                else_block: None,
+            });
+        }
+        _ => {}
+    }
+}
+
 /// Visitor callback for extracting statements from function body.
 ///
 /// # Safety
@@ -300,12 +358,27 @@ pub(crate) extern "C" fn visit_statement(
             CXChildVisit_Recurse
         }
         CXCursor_BinaryOperator => {
-            // Could be an assignment statement (x = 42)
-            if let Some(stmt) = extract_assignment_stmt(cursor) {
-                statements.push(stmt);
+            match expressions::extract_binary_operator(cursor) {
+                Some(BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr) => {
+                    push_conditional_stmt(cursor, statements);
+                }
+                Some(BinaryOperator::Assign) => {
+                    // Assignment statement (x = 42)
+                    if let Some(stmt) = extract_assignment_stmt(cursor) {
+                        statements.push(stmt);
+                    }
+                }
+                None => {}
+                // Only the operands can have an effect
+                Some(_) => return CXChildVisit_Recurse,
             }
             CXChildVisit_Continue
         }
+        116 => {
+            // CXCursor_ConditionalOperator - only the chosen operand is evaluated
+            push_conditional_stmt(cursor, statements);
+            CXChildVisit_Continue
+        }
         CXCursor_IfStmt => {
             // If statement
             if let Some(stmt) = extract_if_stmt(cursor) {
@@ -353,8 +426,10 @@ pub(crate) extern "C" fn visit_statement(
         }
         CXCursor_UnaryOperator => {
             // Could be ++/-- statement (ptr++, ++ptr, ptr--, --ptr)
-            if let Some(stmt) = extract_inc_dec_stmt(cursor) {
-                statements.push(stmt);
+            match extract_inc_dec_stmt(cursor) {
+                Some(stmt) => statements.push(stmt),
+                // Only the operand can have an effect
+                None => return CXChildVisit_Recurse,
             }
             CXChildVisit_Continue
         }
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 1dde6de..c7ae2c4 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -202,8 +202,8 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     let mut operator: Option<String> = None;
     let mut operator_position = 0;
 
-    // Look through tokens to find ++ or --
-    for i in 0..num_tokens {
+    // The operator ++ or -- is the first token or the last one: any other belongs to an operand
+    for i in (0..num_tokens).filter(|i| *i == 0 || *i + 1 == num_tokens) {
         unsafe {
             let token = *tokens.add(i as usize);
             let token_kind = clang_getTokenKind(token);
-- 
2.43.0


From 8566796930734f3467607b224f630d8760d6574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 090/103] fix: comparisons as switch selectors and assigned
 values, and character constants in sums

A switch on a comparison, and a comparison assigned inside an expression, gave
bool where int is needed; (a << b) + 'x' lost its parentheses, and a comparison
with a character constant stored in an int was not converted.
---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 21 ++++++++++++++++---
 crates/decy-codegen/src/stmt_gen.rs           |  4 +++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 4d6fff8..5c1eb19 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -34,6 +34,9 @@ impl CodeGenerator {
 
         if is_comparison {
             if let Some(result) = self.gen_expr_binary_char_int_comparison(op, left, right, ctx) {
+                if let Some(HirType::Int) = target_type {
+                    return format!("{} as i32", result);
+                }
                 return result;
             }
         }
@@ -210,7 +213,10 @@ impl CodeGenerator {
         right: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
-        let right_code = self.generate_expression_with_context(right, ctx);
+        // The value assigned has the type of the target: a comparison stored in an int is 0 or 1
+        let target =
+            if Self::is_boolean_expression(right) { ctx.infer_expression_type(left) } else { None };
+        let right_code = self.generate_expression_with_target_type(right, ctx, target.as_ref());
 
         if let HirExpression::ArrayIndex { array, index } = left {
             if let HirExpression::Variable(var_name) = &**array {
@@ -380,10 +386,19 @@ impl CodeGenerator {
         right: &HirExpression,
         ctx: &TypeContext,
     ) -> Option<String> {
+        let operand = |expr: &HirExpression| {
+            let code = self.generate_expression_with_context(expr, ctx);
+            match expr {
+                HirExpression::BinaryOp { .. }
+                | HirExpression::Cast { .. }
+                | HirExpression::Ternary { .. } => format!("({})", code),
+                _ => code,
+            }
+        };
         if let HirExpression::CharLiteral(c) = right {
             let left_type = ctx.infer_expression_type(left);
             if matches!(left_type, Some(HirType::Int)) {
-                let left_code = self.generate_expression_with_context(left, ctx);
+                let left_code = operand(left);
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({} {} {}i32)", left_code, op_str, *c as i32));
             }
@@ -391,7 +406,7 @@ impl CodeGenerator {
         if let HirExpression::CharLiteral(c) = left {
             let right_type = ctx.infer_expression_type(right);
             if matches!(right_type, Some(HirType::Int)) {
-                let right_code = self.generate_expression_with_context(right, ctx);
+                let right_code = operand(right);
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({}i32 {} {})", *c as i32, op_str, right_code));
             }
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 83521ca..f16e78d 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -751,9 +751,11 @@ impl CodeGenerator {
         let mut code = String::new();
 
         // Generate match expression
+        // A comparison or a logical operator selects by its int value (0 or 1)
+        let target = Self::is_boolean_expression(condition).then_some(HirType::Int);
         code.push_str(&format!(
             "match {} {{\n",
-            self.generate_expression_with_context(condition, ctx)
+            self.generate_expression_with_target_type(condition, ctx, target.as_ref())
         ));
 
         // DECY-209: Infer switch condition type for case pattern matching
-- 
2.43.0


From 77242fadb704de242e29fdd1c309ba2d8d7a2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:44 +0000
Subject: [PATCH 091/103] fix: large unsigned constants and numeric conversions
 of fields, elements and arguments

An unsigned constant above 2147483647 came out negative; a field, element or
dereferenced pointer of another numeric type was not converted where a variable
is (return, initialisation, argument).
---
 crates/decy-codegen/src/expr_gen/calls.rs    | 19 ++++++++
 crates/decy-codegen/src/expr_gen/literals.rs | 47 +++++++++++++++-----
 crates/decy-codegen/src/expr_gen/mod.rs      |  8 ++++
 3 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index b869628..7aca737 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -823,6 +823,25 @@ impl CodeGenerator {
                         }
                     }
 
+                    let is_unsigned_literal = matches!(
+                        (arg, param_type),
+                        (HirExpression::IntLiteral(_), Some(HirType::UnsignedInt))
+                    );
+                    let is_number_param = matches!(
+                        param_type,
+                        Some(HirType::Int | HirType::Float | HirType::Double)
+                    ) && matches!(
+                        arg,
+                        HirExpression::Variable(_)
+                            | HirExpression::FieldAccess { .. }
+                            | HirExpression::PointerFieldAccess { .. }
+                            | HirExpression::ArrayIndex { .. }
+                            | HirExpression::Dereference(_)
+                    );
+                    if is_unsigned_literal || is_number_param {
+                        return Some(self.generate_expression_with_target_type(arg, ctx, param_type));
+                    }
+
                     let is_string_param = param_type
                         .map(|t| matches!(t, HirType::StringReference | HirType::StringLiteral))
                         .unwrap_or(false);
diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 73817fc..843beeb 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -13,6 +13,10 @@ impl CodeGenerator {
                 return "std::ptr::null_mut()".to_string();
             }
         }
+        if let Some(HirType::UnsignedInt) = target_type {
+            // The literal keeps its 32 bits: 3000000000 is held as a negative i32
+            return (val as u32).to_string();
+        }
         val.to_string()
     }
 
@@ -235,30 +239,51 @@ impl CodeGenerator {
         None
     }
 
-    pub(crate) fn gen_expr_variable_numeric_coercion(
-        escaped_name: &str,
-        name: &str,
-        target: &HirType,
-        ctx: &TypeContext,
-    ) -> Option<String> {
-        let var_type = ctx.get_type(name)?;
-        let cast_suffix = if matches!(var_type, HirType::Int | HirType::UnsignedInt) {
+    /// The Rust type to cast a value of numeric type `from` to where C converts it to `target`.
+    fn numeric_cast_suffix(from: &HirType, target: &HirType) -> Option<&'static str> {
+        if matches!(from, HirType::Int | HirType::UnsignedInt) {
             match target {
                 HirType::Float => Some("f32"),
                 HirType::Double => Some("f64"),
                 _ => None,
             }
-        } else if matches!(var_type, HirType::Float | HirType::Double) {
+        } else if matches!(from, HirType::Float | HirType::Double) {
             match target {
                 HirType::Int => Some("i32"),
                 HirType::UnsignedInt => Some("u32"),
                 _ => None,
             }
-        } else if matches!(var_type, HirType::Char) && matches!(target, HirType::Int) {
+        } else if matches!(from, HirType::Char) && matches!(target, HirType::Int) {
             Some("i32")
         } else {
             None
-        };
+        }
+    }
+
+    /// The same for a field, an element or a dereferenced pointer.
+    pub(crate) fn numeric_place_suffix(
+        expr: &HirExpression,
+        ctx: &TypeContext,
+        target_type: Option<&HirType>,
+    ) -> Option<&'static str> {
+        match expr {
+            HirExpression::FieldAccess { .. }
+            | HirExpression::PointerFieldAccess { .. }
+            | HirExpression::ArrayIndex { .. }
+            | HirExpression::Dereference(_) => {
+                Self::numeric_cast_suffix(&ctx.infer_expression_type(expr)?, target_type?)
+            }
+            _ => None,
+        }
+    }
+
+    pub(crate) fn gen_expr_variable_numeric_coercion(
+        escaped_name: &str,
+        name: &str,
+        target: &HirType,
+        ctx: &TypeContext,
+    ) -> Option<String> {
+        let cast_suffix = Self::numeric_cast_suffix(ctx.get_type(name)?, target);
 
         cast_suffix.map(|suffix| {
             let code = format!("{} as {}", escaped_name, suffix);
diff --git a/crates/decy-codegen/src/expr_gen/mod.rs b/crates/decy-codegen/src/expr_gen/mod.rs
index f9d5618..0aae10b 100644
--- a/crates/decy-codegen/src/expr_gen/mod.rs
+++ b/crates/decy-codegen/src/expr_gen/mod.rs
@@ -38,6 +38,14 @@ impl CodeGenerator {
         ctx: &TypeContext,
         target_type: Option<&HirType>,
     ) -> String {
+        if let Some(suffix) = Self::numeric_place_suffix(expr, ctx, target_type) {
+            let code = self.generate_expression_with_target_type(expr, ctx, None);
+            return if code.ends_with('}') {
+                format!("({}) as {}", code, suffix)
+            } else {
+                format!("{} as {}", code, suffix)
+            };
+        }
         match expr {
             HirExpression::IntLiteral(val) => self.gen_expr_int_literal(*val, target_type),
             HirExpression::FloatLiteral(val) => self.gen_expr_float_literal(val, target_type),
-- 
2.43.0


From 949561599b4e65a1800586626db3fb51659be404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:41 +0000
Subject: [PATCH 092/103] fix: read the file of an include line from its first
 delimiter, with any blanks after the #

---
 crates/decy-core/src/lib.rs | 87 ++++++++++++-------------------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 8d86c95..d916e8f 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -309,16 +309,8 @@ impl DependencyGraph {
         let mut includes = Vec::new();
 
         for line in code.lines() {
-            let trimmed = line.trim();
-            if trimmed.starts_with("#include") {
-                // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find(['"', '<']) {
-                    let end_char = if trimmed[start..].starts_with('"') { '"' } else { '>' };
-                    if let Some(end) = trimmed[start + 1..].find(end_char) {
-                        let filename = &trimmed[start + 1..start + 1 + end];
-                        includes.push(filename.to_string());
-                    }
-                }
+            if let Some((filename, _)) = include_directive(line) {
+                includes.push(filename.to_string());
             }
         }
 
@@ -547,6 +539,18 @@ impl Default for TranspilationCache {
     }
 }
 
+/// The file an `#include` line names, and whether it is a system header (`<file.h>`).
+///
+/// None for any other line and for a malformed directive.
+fn include_directive(line: &str) -> Option<(&str, bool)> {
+    let rest = line.trim().strip_prefix('#')?.trim_start().strip_prefix("include")?;
+    let start = rest.find(['"', '<'])?;
+    let is_system = rest[start..].starts_with('<');
+    let name = &rest[start + 1..];
+    let end = name.find(if is_system { '>' } else { '"' })?;
+    Some((&name[..end], is_system))
+}
+
 /// Preprocess #include directives in C source code (DECY-056).
 ///
 /// Resolves and inlines #include directives recursively, tracking processed files
@@ -578,38 +582,8 @@ fn preprocess_includes(
     let base_dir = base_dir.unwrap_or_else(|| Path::new("."));
 
     for line in source.lines() {
-        let trimmed = line.trim();
-
-        // Check for #include directive
-        if trimmed.starts_with("#include") {
-            // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, false)
-                } else {
-                    // Malformed include, keep original line
-                    result.push_str(line);
-                    result.push('\n');
-                    continue;
-                }
-            } else if let Some(start) = trimmed.find('<') {
-                if let Some(end) = trimmed[start + 1..].find('>') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, true)
-                } else {
-                    // Malformed include, keep original line
-                    result.push_str(line);
-                    result.push('\n');
-                    continue;
-                }
-            } else {
-                // No include found, keep original line
-                result.push_str(line);
-                result.push('\n');
-                continue;
-            };
-
+        // Check for #include "file.h" or #include <file.h>; a malformed one stays as it is
+        if let Some((filename, is_system)) = include_directive(line) {
             // Skip system includes (<stdio.h>) - we don't have those files
             // BUT: Inject stdlib prototypes so parsing succeeds
             if is_system {
@@ -1705,24 +1679,17 @@ fn collect_dependencies(
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
 
     for line in c_code.lines() {
-        let trimmed = line.trim();
-        if trimmed.starts_with("#include") {
-            // Extract header filename from #include "header.h" or #include <header.h>
-            if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let header_name = &trimmed[start + 1..start + 1 + end];
-                    let header_path = source_dir.join(header_name);
-                    let header_path = if header_path.components().any(|c| c.as_os_str() == "..") {
-                        header_path.canonicalize().unwrap_or(header_path)
-                    } else {
-                        header_path
-                    };
-                    if header_path.exists() && !dependencies.contains(&header_path) {
-                        dependencies.push(header_path.clone());
-                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
-                            collect_dependencies(&header_path, &header_code, dependencies)?;
-                        }
-                    }
+        if let Some((header_name, false)) = include_directive(line) {
+            let header_path = source_dir.join(header_name);
+            let header_path = if header_path.components().any(|c| c.as_os_str() == "..") {
+                header_path.canonicalize().unwrap_or(header_path)
+            } else {
+                header_path
+            };
+            if header_path.exists() && !dependencies.contains(&header_path) {
+                dependencies.push(header_path.clone());
+                if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                    collect_dependencies(&header_path, &header_code, dependencies)?;
                 }
             }
         }
-- 
2.43.0


From 9430654505472a3fffe504258f381b8593addccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 093/103] fix: recognise CUDA qualifiers after other specifiers
 and on a line of their own

---
 crates/decy-parser/src/parser.rs | 61 ++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/crates/decy-parser/src/parser.rs b/crates/decy-parser/src/parser.rs
index 54840e3..a655314 100644
--- a/crates/decy-parser/src/parser.rs
+++ b/crates/decy-parser/src/parser.rs
@@ -465,35 +465,44 @@ fn apply_cuda_qualifiers_from_source(ast: &mut Ast, source: &str) {
     let mut qualifiers: std::collections::HashMap<String, CudaQualifier> =
         std::collections::HashMap::new();
 
-    for line in source.lines() {
-        let trimmed = line.trim();
-        let qualifier = if trimmed.starts_with("__global__") {
-            Some(CudaQualifier::Global)
-        } else if (trimmed.starts_with("__device__") && trimmed.contains("__host__"))
-            || (trimmed.starts_with("__host__") && trimmed.contains("__device__"))
-        {
-            Some(CudaQualifier::HostDevice)
-        } else if trimmed.starts_with("__device__") {
-            Some(CudaQualifier::Device)
-        } else if trimmed.starts_with("__host__") {
-            Some(CudaQualifier::Host)
+    // Everything up to the parameter list of a function, on however many lines
+    let lines: Vec<&str> = source
+        .lines()
+        .filter(|line| !line.trim_start().starts_with('#'))
+        .map(|line| line.split("//").next().unwrap_or(line))
+        .collect();
+    let text = lines.join("\n");
+    let code: String = text
+        .split("/*")
+        .enumerate()
+        .map(|(i, part)| match part.split_once("*/") {
+            Some((_, rest)) if i > 0 => rest,
+            _ => part,
+        })
+        .collect();
+    for declaration in code.split([';', '{', '}']) {
+        let Some((head, _)) = declaration.split_once('(') else { continue };
+        let words: Vec<&str> = head
+            .split(|c: char| !c.is_alphanumeric() && c != '_')
+            .filter(|w| !w.is_empty())
+            .collect();
+        let has = |word: &str| words.contains(&word);
+
+        let qualifier = if has("__global__") {
+            CudaQualifier::Global
+        } else if has("__device__") && has("__host__") {
+            CudaQualifier::HostDevice
+        } else if has("__device__") {
+            CudaQualifier::Device
+        } else if has("__host__") {
+            CudaQualifier::Host
         } else {
-            None
+            continue;
         };
 
-        if let Some(qual) = qualifier {
-            // Extract function name: after qualifier + return type, before '('
-            let after_qual =
-                trimmed.replace("__global__", "").replace("__device__", "").replace("__host__", "");
-            if let Some(paren_pos) = after_qual.find('(') {
-                let before_paren = after_qual[..paren_pos].trim();
-                // Last word before '(' is the function name
-                if let Some(name) = before_paren.split_whitespace().last() {
-                    // Strip pointer/ref decorators
-                    let clean_name = name.trim_start_matches('*').trim_start_matches('&');
-                    qualifiers.insert(clean_name.to_string(), qual);
-                }
-            }
+        // The last word before the parameter list is the function name
+        if let Some(name) = words.last() {
+            qualifiers.insert(name.to_string(), qualifier);
         }
     }
 
-- 
2.43.0


From 6cb21373269d58690d06c9970e756db3dd7fb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 094/103] fix: declare CUDA kernels with the parameters they
 were compiled with

---
 crates/decy-core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index d916e8f..ed11722 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -854,6 +854,12 @@ fn build_slice_func_arg_mappings(
 fn transform_function_with_ownership(
     func: HirFunction,
 ) -> (HirFunction, decy_ownership::lifetime_gen::AnnotatedSignature) {
+    // A CUDA kernel is only declared, and called with the signature it was compiled with
+    if func.cuda_qualifier() == Some(decy_hir::HirCudaQualifier::Global) {
+        let annotated_signature = LifetimeAnnotator::new().annotate_function(&func);
+        return (func, annotated_signature);
+    }
+
     let dataflow_analyzer = DataflowAnalyzer::new();
     let dataflow_graph = dataflow_analyzer.analyze(&func);
 
-- 
2.43.0


From b4c1adff9eb19445c1fa90e1d0de3b59357fbaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 095/103] fix: make functions of a namespace public and array
 parameters of kernels pointers

---
 crates/decy-codegen/src/type_gen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index 718505f..cd91319 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -441,7 +441,8 @@ impl CodeGenerator {
             .iter()
             .map(|p| {
                 let ty = match p.param_type() {
-                    decy_hir::HirType::Pointer(inner) => {
+                    decy_hir::HirType::Pointer(inner)
+                    | decy_hir::HirType::Array { element_type: inner, .. } => {
                         format!("*mut {}", Self::map_type(inner))
                     }
                     other => Self::map_type(other),
@@ -493,7 +494,9 @@ impl CodeGenerator {
         for f in ns.functions() {
             let func_code = self.generate_function(f);
             for line in func_code.lines() {
-                code.push_str(&format!("    {}\n", line));
+                // A function of a namespace can be called from outside it
+                let visibility = if line.starts_with("fn ") { "pub " } else { "" };
+                code.push_str(&format!("    {}{}\n", visibility, line));
             }
             code.push('\n');
         }
-- 
2.43.0


From e80fdb3c782eb9ee7dde329abe76f921f5539fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 096/103] fix: take the whole of a response's Rust code, with
 fences in its doc comments

---
 crates/decy-llm/src/llm_codegen.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/decy-llm/src/llm_codegen.rs b/crates/decy-llm/src/llm_codegen.rs
index 0aeede0..4a221bc 100644
--- a/crates/decy-llm/src/llm_codegen.rs
+++ b/crates/decy-llm/src/llm_codegen.rs
@@ -173,8 +173,18 @@ impl LlmCodegen {
                     .map(|i| code_start + i + 1)
                     .unwrap_or(code_start);
 
-                // Find closing ```
-                if let Some(end) = response[code_start..].find("```") {
+                // Find closing ```: a line of its own, since doc comments in the code have fences too
+                let body = &response[code_start..];
+                let closing_line = body
+                    .split_inclusive('\n')
+                    .scan(0, |offset, line| {
+                        let start = *offset;
+                        *offset += line.len();
+                        Some((start, line))
+                    })
+                    .find(|(_, line)| line.trim_start().starts_with("```"))
+                    .map(|(start, _)| start);
+                if let Some(end) = closing_line.or_else(|| body.find("```")) {
                     let code = response[code_start..code_start + end].trim();
                     if !code.is_empty() {
                         return Some(code.to_string());
-- 
2.43.0


From 65be7798a1b3f59302eb39bc3d232edc7b7e18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:22 +0000
Subject: [PATCH 097/103] fix: step globals inside expressions in one unsafe
 block

---
 crates/decy-codegen/src/expr_gen/calls.rs | 40 +++---------
 crates/decy-codegen/src/expr_gen/misc.rs  | 75 +++++++++++++----------
 2 files changed, 51 insertions(+), 64 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 7aca737..66c46da 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -62,50 +62,26 @@ impl CodeGenerator {
             UnaryOperator::PostIncrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 let operand_type = ctx.infer_expression_type(operand);
-                if matches!(operand_type, Some(HirType::Pointer(_))) {
-                    format!(
-                        "{{ let __tmp = {}; {} = {}.wrapping_add(1); __tmp }}",
-                        operand_code, operand_code, operand_code
-                    )
-                } else {
-                    format!("{{ let __tmp = {}; {} += 1; __tmp }}", operand_code, operand_code)
-                }
+                let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+                Self::step_block(&operand_code, is_pointer, true, true)
             }
             UnaryOperator::PostDecrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 let operand_type = ctx.infer_expression_type(operand);
-                if matches!(operand_type, Some(HirType::Pointer(_))) {
-                    format!(
-                        "{{ let __tmp = {}; {} = {}.wrapping_sub(1); __tmp }}",
-                        operand_code, operand_code, operand_code
-                    )
-                } else {
-                    format!("{{ let __tmp = {}; {} -= 1; __tmp }}", operand_code, operand_code)
-                }
+                let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+                Self::step_block(&operand_code, is_pointer, false, true)
             }
             UnaryOperator::PreIncrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 let operand_type = ctx.infer_expression_type(operand);
-                if matches!(operand_type, Some(HirType::Pointer(_))) {
-                    format!(
-                        "{{ {} = {}.wrapping_add(1); {} }}",
-                        operand_code, operand_code, operand_code
-                    )
-                } else {
-                    format!("{{ {} += 1; {} }}", operand_code, operand_code)
-                }
+                let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+                Self::step_block(&operand_code, is_pointer, true, false)
             }
             UnaryOperator::PreDecrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 let operand_type = ctx.infer_expression_type(operand);
-                if matches!(operand_type, Some(HirType::Pointer(_))) {
-                    format!(
-                        "{{ {} = {}.wrapping_sub(1); {} }}",
-                        operand_code, operand_code, operand_code
-                    )
-                } else {
-                    format!("{{ {} -= 1; {} }}", operand_code, operand_code)
-                }
+                let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+                Self::step_block(&operand_code, is_pointer, false, false)
             }
             UnaryOperator::LogicalNot => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 10ddad7..c5f9ebf 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -341,6 +341,41 @@ impl CodeGenerator {
         }
     }
 
+    /// The block that steps an operand by one; its value is the operand before (post) or after.
+    pub(crate) fn step_block(
+        operand: &str,
+        is_pointer: bool,
+        increment: bool,
+        post: bool,
+    ) -> String {
+        // A global reads as `unsafe { g }`, which cannot be assigned: the whole block is unsafe then
+        let (open, place) =
+            match operand.strip_prefix("unsafe { ").and_then(|x| x.strip_suffix(" }")) {
+                Some(place) if Self::is_balanced(place) => ("unsafe {", place),
+                _ => ("{", operand),
+            };
+        let step = match (is_pointer, increment) {
+            (true, true) => format!("{place} = {place}.wrapping_add(1)"),
+            (true, false) => format!("{place} = {place}.wrapping_sub(1)"),
+            (false, true) => format!("{place} += 1"),
+            (false, false) => format!("{place} -= 1"),
+        };
+        if post {
+            format!("{open} let __tmp = {place}; {step}; __tmp }}")
+        } else {
+            format!("{open} {step}; {place} }}")
+        }
+    }
+
+    /// Whether every brace of a piece of code closes one opened in it.
+    fn is_balanced(code: &str) -> bool {
+        let mut depth = 0i32;
+        code.chars().all(|c| {
+            depth += i32::from(c == '{') - i32::from(c == '}');
+            depth >= 0
+        })
+    }
+
     pub(crate) fn gen_expr_post_increment(
         &self,
         operand: &HirExpression,
@@ -372,14 +407,8 @@ impl CodeGenerator {
         let operand_code = self.generate_expression_with_context(operand, ctx);
 
         let operand_type = ctx.infer_expression_type(operand);
-        if matches!(operand_type, Some(HirType::Pointer(_))) {
-            format!(
-                "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_add(1); __tmp }}",
-                operand = operand_code
-            )
-        } else {
-            format!("{{ let __tmp = {operand}; {operand} += 1; __tmp }}", operand = operand_code)
-        }
+        let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+        Self::step_block(&operand_code, is_pointer, true, true)
     }
 
     pub(crate) fn gen_expr_pre_increment(
@@ -400,14 +429,8 @@ impl CodeGenerator {
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
         let operand_type = ctx.infer_expression_type(operand);
-        if matches!(operand_type, Some(HirType::Pointer(_))) {
-            format!(
-                "{{ {operand} = {operand}.wrapping_add(1); {operand} }}",
-                operand = operand_code
-            )
-        } else {
-            format!("{{ {operand} += 1; {operand} }}", operand = operand_code)
-        }
+        let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+        Self::step_block(&operand_code, is_pointer, true, false)
     }
 
     pub(crate) fn gen_expr_post_decrement(
@@ -428,14 +451,8 @@ impl CodeGenerator {
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
         let operand_type = ctx.infer_expression_type(operand);
-        if matches!(operand_type, Some(HirType::Pointer(_))) {
-            format!(
-                "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_sub(1); __tmp }}",
-                operand = operand_code
-            )
-        } else {
-            format!("{{ let __tmp = {operand}; {operand} -= 1; __tmp }}", operand = operand_code)
-        }
+        let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+        Self::step_block(&operand_code, is_pointer, false, true)
     }
 
     pub(crate) fn gen_expr_pre_decrement(
@@ -456,14 +473,8 @@ impl CodeGenerator {
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
         let operand_type = ctx.infer_expression_type(operand);
-        if matches!(operand_type, Some(HirType::Pointer(_))) {
-            format!(
-                "{{ {operand} = {operand}.wrapping_sub(1); {operand} }}",
-                operand = operand_code
-            )
-        } else {
-            format!("{{ {operand} -= 1; {operand} }}", operand = operand_code)
-        }
+        let is_pointer = matches!(operand_type, Some(HirType::Pointer(_)));
+        Self::step_block(&operand_code, is_pointer, false, false)
     }
 
     pub(crate) fn gen_expr_ternary(
-- 
2.43.0


From d55319a791d92878caab9149f4e0b22674ebc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:22 +0000
Subject: [PATCH 098/103] fix: convert an int that is compared with a double or
 a float

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 5c1eb19..8b6c914 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -153,6 +153,15 @@ impl CodeGenerator {
             ) {
                 return result;
             }
+            // An int beside a float or a double is converted to it, as in arithmetic
+            if let Some(result) = self.gen_expr_binary_arithmetic_coercion(
+                op, left, right, &left_str, &right_str, op_str, ctx, None,
+            ) {
+                if let Some(HirType::Int) = target_type {
+                    return format!("({}) as i32", result);
+                }
+                return result;
+            }
             if let Some(result) = self.gen_expr_binary_signed_unsigned_comparison(
                 left,
                 right,
-- 
2.43.0


From 33019297f55cea2de0074279424eeb3a1f03f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:22 +0000
Subject: [PATCH 099/103] fix: convert int values where a double or a float is
 wanted

---
 crates/decy-codegen/src/expr_gen/calls.rs    |  4 +++-
 crates/decy-codegen/src/expr_gen/literals.rs |  7 ++++++-
 crates/decy-codegen/src/expr_gen/misc.rs     | 16 ++++++++++++++--
 crates/decy-codegen/src/expr_gen/mod.rs      |  6 ++++++
 crates/decy-codegen/src/lib.rs               |  7 +++++++
 5 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 66c46da..5cbbe62 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -814,7 +814,9 @@ impl CodeGenerator {
                             | HirExpression::ArrayIndex { .. }
                             | HirExpression::Dereference(_)
                     );
-                    if is_unsigned_literal || is_number_param {
+                    let is_float_param =
+                        matches!(param_type, Some(HirType::Float | HirType::Double));
+                    if is_unsigned_literal || is_number_param || is_float_param {
                         return Some(self.generate_expression_with_target_type(arg, ctx, param_type));
                     }
 
diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 843beeb..c65d770 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -17,7 +17,12 @@ impl CodeGenerator {
             // The literal keeps its 32 bits: 3000000000 is held as a negative i32
             return (val as u32).to_string();
         }
-        val.to_string()
+        // C converts the constant where a floating-point value is wanted
+        match target_type {
+            Some(HirType::Float) => format!("{}.0f32", val),
+            Some(HirType::Double) => format!("{}.0f64", val),
+            _ => val.to_string(),
+        }
     }
 
     pub(crate) fn gen_expr_float_literal(
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index c5f9ebf..103ef98 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -268,6 +268,17 @@ impl CodeGenerator {
         }
     }
 
+    /// An initializer of a field or an element, converted where that is a floating-point value.
+    fn generate_initializer(
+        &self,
+        init: &HirExpression,
+        ctx: &TypeContext,
+        wanted: Option<&HirType>,
+    ) -> String {
+        let target = wanted.filter(|ty| matches!(ty, HirType::Float | HirType::Double));
+        self.generate_expression_with_target_type(init, ctx, target)
+    }
+
     pub(crate) fn gen_expr_compound_literal(
         &self,
         literal_type: &HirType,
@@ -286,7 +297,8 @@ impl CodeGenerator {
                         .iter()
                         .enumerate()
                         .map(|(i, init)| {
-                            let init_code = self.generate_expression_with_context(init, ctx);
+                            let field_type = struct_fields.and_then(|f| f.get(i)).map(|(_, ty)| ty);
+                            let init_code = self.generate_initializer(init, ctx, field_type);
                             let field_name = struct_fields
                                 .and_then(|f| f.get(i))
                                 .map(|(name, _)| name.as_str())
@@ -314,7 +326,7 @@ impl CodeGenerator {
                 } else {
                     let elements: Vec<String> = initializers
                         .iter()
-                        .map(|init| self.generate_expression_with_context(init, ctx))
+                        .map(|init| self.generate_initializer(init, ctx, Some(element_type)))
                         .collect();
 
                     if let Some(n) = size {
diff --git a/crates/decy-codegen/src/expr_gen/mod.rs b/crates/decy-codegen/src/expr_gen/mod.rs
index 0aae10b..4fbed58 100644
--- a/crates/decy-codegen/src/expr_gen/mod.rs
+++ b/crates/decy-codegen/src/expr_gen/mod.rs
@@ -63,6 +63,12 @@ impl CodeGenerator {
                 self.gen_expr_binary_op(op, left, right, ctx, target_type)
             }
             HirExpression::Dereference(inner) => self.gen_expr_dereference(inner, ctx),
+            HirExpression::UnaryOp { op: decy_hir::UnaryOperator::Minus, operand }
+                if matches!(**operand, HirExpression::IntLiteral(_))
+                    && matches!(target_type, Some(HirType::Float | HirType::Double)) =>
+            {
+                format!("-{}", self.generate_expression_with_target_type(operand, ctx, target_type))
+            }
             HirExpression::UnaryOp { op, operand } => self.gen_expr_unary_op(op, operand, ctx),
             HirExpression::FunctionCall { function, arguments } => {
                 self.gen_expr_function_call(function, arguments, ctx, target_type)
diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 6b15006..68b8dd9 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -360,6 +360,13 @@ impl TypeContext {
                     _ => None,
                 }
             }
+            // A negated value keeps its type (char promotes to int in C)
+            HirExpression::UnaryOp { op: decy_hir::UnaryOperator::Minus, operand } => {
+                match self.infer_expression_type(operand) {
+                    Some(HirType::Char) => Some(HirType::Int),
+                    operand_type => operand_type,
+                }
+            }
             _ => None,
         }
     }
-- 
2.43.0


From 1f0639bb2ed1f071e71eb7bde7dd8b9d48b2786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:27 +0000
Subject: [PATCH 100/103] fix: give the variants of a generated enum different
 names

---
 crates/decy-codegen/src/enum_gen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/enum_gen.rs b/crates/decy-codegen/src/enum_gen.rs
index 78cb8b5..2146c1c 100644
--- a/crates/decy-codegen/src/enum_gen.rs
+++ b/crates/decy-codegen/src/enum_gen.rs
@@ -143,8 +143,14 @@ impl EnumGenerator {
         result.push_str(&format!("pub enum {} {{\n", info.struct_name));
 
         // Generate variants
+        let mut used = std::collections::HashSet::new();
         for (idx, variant) in info.variants.iter().enumerate() {
-            let variant_name = Self::capitalize_variant_name(&variant.name, &variant.payload_type);
+            let mut variant_name =
+                Self::capitalize_variant_name(&variant.name, &variant.payload_type);
+            // Members can share a name derived from their type or differ in underscores only
+            while !used.insert(variant_name.clone()) {
+                variant_name.push_str(&format!("{}", idx + 1));
+            }
             let variant_type = Self::map_hir_type_to_rust(&variant.payload_type);
 
             // Handle void types as unit variants
-- 
2.43.0


From a727159b7258397fcfa9701ddebb6e13b93a1971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:27 +0000
Subject: [PATCH 101/103] fix: pointer features see loops, switch arms and
 nested blocks, and a local is not sized by the first parameter

---
 crates/decy-ownership/src/ml_features.rs | 130 ++++++++++-------------
 1 file changed, 56 insertions(+), 74 deletions(-)

diff --git a/crates/decy-ownership/src/ml_features.rs b/crates/decy-ownership/src/ml_features.rs
index 22a59f1..0190f74 100644
--- a/crates/decy-ownership/src/ml_features.rs
+++ b/crates/decy-ownership/src/ml_features.rs
@@ -456,17 +456,18 @@ impl FeatureExtractor {
         var_name: &str,
     ) -> Option<OwnershipFeatures> {
         // Find variable declaration in body
-        for stmt in func.body() {
+        let mut found = None;
+        Self::for_each_statement(func.body(), &mut |stmt| {
             if let HirStatement::VariableDeclaration { name, var_type, initializer } = stmt {
-                if name == var_name && self.is_pointer_like(var_type) {
-                    let allocation = self.classify_allocation(initializer.as_ref());
-                    let mut features = self.extract_features(func, var_name, var_type, 0, false);
-                    features.allocation_site = allocation;
-                    return Some(features);
+                if found.is_none() && name == var_name && self.is_pointer_like(var_type) {
+                    found = Some((var_type, initializer));
                 }
             }
-        }
-        None
+        });
+        let (var_type, initializer) = found?;
+        let mut features = self.extract_features(func, var_name, var_type, 0, false);
+        features.allocation_site = self.classify_allocation(initializer.as_ref());
+        Some(features)
     }
 
     /// Extract features for all pointer parameters in a function.
@@ -507,8 +508,8 @@ impl FeatureExtractor {
             // Syntactic features
             pointer_depth: self.compute_pointer_depth(var_type),
             is_const: self.is_const_type(var_type),
-            is_array_decay: self.detect_array_decay(func, param_index),
-            has_size_param: self.has_size_parameter(func, param_index),
+            is_array_decay: is_param && self.detect_array_decay(func, param_index),
+            has_size_param: is_param && self.has_size_parameter(func, param_index),
             // Semantic features
             allocation_site: if is_param {
                 AllocationKind::Parameter
@@ -596,45 +597,43 @@ impl FeatureExtractor {
         }
     }
 
-    /// Count free() calls on a variable.
-    fn count_deallocations(&self, body: &[HirStatement], var_name: &str) -> u8 {
-        let mut count = 0u8;
+    /// Visit every statement of a body, also those of nested blocks and loop headers.
+    fn for_each_statement<'a>(body: &'a [HirStatement], visit: &mut dyn FnMut(&'a HirStatement)) {
         for stmt in body {
-            count = count.saturating_add(self.count_free_in_stmt(stmt, var_name));
-        }
-        count
-    }
-
-    fn count_free_in_stmt(&self, stmt: &HirStatement, var_name: &str) -> u8 {
-        match stmt {
-            HirStatement::Free { pointer } => {
-                if self.expr_uses_var(pointer, var_name) {
-                    1
-                } else {
-                    0
+            visit(stmt);
+            match stmt {
+                HirStatement::If { then_block, else_block, .. } => {
+                    Self::for_each_statement(then_block, visit);
+                    Self::for_each_statement(else_block.as_deref().unwrap_or(&[]), visit);
                 }
-            }
-            HirStatement::If { then_block, else_block, .. } => {
-                let mut count = 0u8;
-                for s in then_block {
-                    count = count.saturating_add(self.count_free_in_stmt(s, var_name));
+                HirStatement::While { body, .. } => Self::for_each_statement(body, visit),
+                HirStatement::For { init, increment, body, .. } => {
+                    Self::for_each_statement(init, visit);
+                    Self::for_each_statement(body, visit);
+                    Self::for_each_statement(increment, visit);
                 }
-                if let Some(else_stmts) = else_block {
-                    for s in else_stmts {
-                        count = count.saturating_add(self.count_free_in_stmt(s, var_name));
+                HirStatement::Switch { cases, default_case, .. } => {
+                    for case in cases {
+                        Self::for_each_statement(&case.body, visit);
                     }
+                    Self::for_each_statement(default_case.as_deref().unwrap_or(&[]), visit);
                 }
-                count
+                _ => {}
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
-                let mut count = 0u8;
-                for s in body {
-                    count = count.saturating_add(self.count_free_in_stmt(s, var_name));
+        }
+    }
+
+    /// Count free() calls on a variable.
+    fn count_deallocations(&self, body: &[HirStatement], var_name: &str) -> u8 {
+        let mut count = 0u8;
+        Self::for_each_statement(body, &mut |stmt| {
+            if let HirStatement::Free { pointer } = stmt {
+                if self.expr_uses_var(pointer, var_name) {
+                    count = count.saturating_add(1);
                 }
-                count
             }
-            _ => 0,
-        }
+        });
+        count
     }
 
     /// Count aliases (assignments to other variables).
@@ -645,14 +644,13 @@ impl FeatureExtractor {
 
     /// Check if variable escapes function scope.
     fn check_escape(&self, func: &HirFunction, var_name: &str) -> bool {
-        for stmt in func.body() {
+        let mut escapes = false;
+        Self::for_each_statement(func.body(), &mut |stmt| {
             if let HirStatement::Return(Some(expr)) = stmt {
-                if self.expr_uses_var(expr, var_name) {
-                    return true;
-                }
+                escapes = escapes || self.expr_uses_var(expr, var_name);
             }
-        }
-        false
+        });
+        escapes
     }
 
     /// Count read/write accesses to a variable.
@@ -721,35 +719,19 @@ impl FeatureExtractor {
     /// Count null checks on a variable.
     fn count_null_checks(&self, body: &[HirStatement], var_name: &str) -> u8 {
         let mut count = 0u8;
-        for stmt in body {
-            count = count.saturating_add(self.count_null_checks_in_stmt(stmt, var_name));
-        }
-        count
-    }
-
-    fn count_null_checks_in_stmt(&self, stmt: &HirStatement, var_name: &str) -> u8 {
-        match stmt {
-            HirStatement::If { condition, then_block, else_block } => {
-                let mut count: u8 = if self.is_null_check(condition, var_name) { 1 } else { 0 };
-                for s in then_block {
-                    count = count.saturating_add(self.count_null_checks_in_stmt(s, var_name));
-                }
-                if let Some(else_stmts) = else_block {
-                    for s in else_stmts {
-                        count = count.saturating_add(self.count_null_checks_in_stmt(s, var_name));
-                    }
+        Self::for_each_statement(body, &mut |stmt| {
+            let condition = match stmt {
+                HirStatement::If { condition, .. } | HirStatement::While { condition, .. } => {
+                    Some(condition)
                 }
-                count
+                HirStatement::For { condition, .. } => condition.as_ref(),
+                _ => None,
+            };
+            if condition.is_some_and(|c| self.is_null_check(c, var_name)) {
+                count = count.saturating_add(1);
             }
-            HirStatement::While { condition, body } => {
-                let mut count: u8 = if self.is_null_check(condition, var_name) { 1 } else { 0 };
-                for s in body {
-                    count = count.saturating_add(self.count_null_checks_in_stmt(s, var_name));
-                }
-                count
-            }
-            _ => 0,
-        }
+        });
+        count
     }
 
     /// Check if expression is a null check for the variable.
-- 
2.43.0


From 32be189d6dcb862d4439931e3a5056aeb104fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:15 +0000
Subject: [PATCH 102/103] fix: pass a pointer held in a field or an element to
 a reference parameter

---
 crates/decy-codegen/src/expr_gen/calls.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 5cbbe62..acc54e1 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -771,6 +771,25 @@ impl CodeGenerator {
                                 ));
                             }
                         }
+                        // A field or an element that holds a pointer
+                        let is_place = matches!(
+                            arg,
+                            HirExpression::FieldAccess { .. }
+                                | HirExpression::PointerFieldAccess { .. }
+                                | HirExpression::ArrayIndex { .. }
+                        );
+                        if let (true, Some(HirType::Pointer(pointee)), Some(HirType::Reference { inner, .. })) =
+                            (is_place, ctx.infer_expression_type(arg), param_type)
+                        {
+                            // (a char pointer is a string, which the rules below handle)
+                            if pointee == *inner && !matches!(*pointee, HirType::Char) {
+                                let code = self.generate_expression_with_context(arg, ctx);
+                                return Some(Self::unsafe_block(
+                                    &format!("&mut *{}", code),
+                                    "pointer is non-null and valid for the duration of the call",
+                                ));
+                            }
+                        }
                     }
 
                     let is_slice_param = param_type
-- 
2.43.0


From 6e1bdc43f4fc3bafc7d69ca246631aba2ba42120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:01 +0000
Subject: [PATCH 103/103] fix: keep the precision of %s and the width of %c in
 printf formats

---
 crates/decy-codegen/src/expr_gen/misc.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 103ef98..0d7b697 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -910,12 +910,20 @@ impl CodeGenerator {
                         'E' => "{:E}".to_string(),
                         'g' | 'G' => "{}".to_string(),
                         's' => {
-                            if !width.is_empty() {
+                            // A precision is the greatest number of characters printed
+                            if !precision.is_empty() {
+                                let align = if left_align || width.is_empty() { "" } else { ">" };
+                                format!("{{:{}{}.{}}}", align, width, precision)
+                            } else if !width.is_empty() {
                                 format!("{{:{}}}", width)
                             } else {
                                 "{}".to_string()
                             }
                         }
+                        'c' if !width.is_empty() => {
+                            // Rust pads characters on the right unless told otherwise
+                            format!("{{:{}{}}}", if left_align { '<' } else { '>' }, width)
+                        }
                         'c' => "{}".to_string(),
                         'p' => "{:p}".to_string(),
                         _ => {
-- 
2.43.0

