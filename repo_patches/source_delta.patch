From a915a73f22d98e12b04b1cb741bb30779e7e1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 01/23] fix: report type-level division by zero instead of
 crashing the compiler

---
 spade-typeinference/src/constraints.rs | 51 ++++++++++++++++++++++++--
 spade-typeinference/src/lib.rs         | 12 ++++++
 2 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..952bf9b 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -1,4 +1,4 @@
-use num::{BigInt, Signed};
+use num::{BigInt, Signed, Zero};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     location_info::{Loc, WithLocation},
@@ -184,6 +184,16 @@ impl ConstraintExpr {
                 _ => self.clone(),
             }
         };
+        let int_divop =
+            |lhs: &ConstraintExpr, rhs: &ConstraintExpr, op: &dyn Fn(BigInt, BigInt) -> BigInt| {
+                match (lhs.evaluate(type_state), rhs.evaluate(type_state)) {
+                    // Division by zero has no value, so such an expression stays unevaluated
+                    (ConstraintExpr::Integer(l), ConstraintExpr::Integer(r)) if !r.is_zero() => {
+                        ConstraintExpr::Integer(op(l, r))
+                    }
+                    _ => self.clone(),
+                }
+            };
         match self {
             ConstraintExpr::Integer(_) => self.clone(),
             ConstraintExpr::Bool(_) => self.clone(),
@@ -207,8 +217,8 @@ impl ConstraintExpr {
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
-            ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
-            ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
+            ConstraintExpr::Div(lhs, rhs) => int_divop(lhs, rhs, &|l, r| l / r),
+            ConstraintExpr::Mod(lhs, rhs) => int_divop(lhs, rhs, &|l, r| l % r),
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
                 ConstraintExpr::Integer(val) => ConstraintExpr::Integer(-val),
                 _ => self.clone(),
@@ -299,6 +309,41 @@ impl ConstraintExpr {
         }
     }
 
+    /// True if evaluating this expression requires dividing by something known to be zero
+    pub fn divides_by_zero(&self, type_state: &TypeState) -> bool {
+        match self {
+            ConstraintExpr::Bool(_)
+            | ConstraintExpr::Integer(_)
+            | ConstraintExpr::String(_)
+            | ConstraintExpr::Var(_) => false,
+            ConstraintExpr::Div(lhs, rhs) | ConstraintExpr::Mod(lhs, rhs) => {
+                let zero_divisor = match rhs.evaluate(type_state) {
+                    ConstraintExpr::Integer(val) => val.is_zero(),
+                    _ => false,
+                };
+                zero_divisor || lhs.divides_by_zero(type_state) || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sum(lhs, rhs)
+            | ConstraintExpr::Difference(lhs, rhs)
+            | ConstraintExpr::Product(lhs, rhs)
+            | ConstraintExpr::Eq(lhs, rhs)
+            | ConstraintExpr::NotEq(lhs, rhs)
+            | ConstraintExpr::Lt(lhs, rhs)
+            | ConstraintExpr::Gt(lhs, rhs)
+            | ConstraintExpr::Le(lhs, rhs)
+            | ConstraintExpr::Ge(lhs, rhs)
+            | ConstraintExpr::LogicalAnd(lhs, rhs)
+            | ConstraintExpr::LogicalOr(lhs, rhs)
+            | ConstraintExpr::LogicalXor(lhs, rhs) => {
+                lhs.divides_by_zero(type_state) || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sub(inner)
+            | ConstraintExpr::LogicalNot(inner)
+            | ConstraintExpr::IntBitsToRepresent(inner)
+            | ConstraintExpr::UintBitsToRepresent(inner) => inner.divides_by_zero(type_state),
+        }
+    }
+
     pub fn with_context(
         self,
         replaces: &TypeVarID,
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..3d0dc0f 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -3361,6 +3361,18 @@ impl TypeState {
                 .clone()
                 .update_type_level_value_constraints(self);
 
+            // A division by zero never gets a value, so the constraint could never be checked
+            let (undefined, remaining) = std::mem::take(&mut self.owned.constraints.inner)
+                .into_iter()
+                .partition::<Vec<_>, _>(|(_, rhs)| rhs.constraint.divides_by_zero(self));
+            self.owned.constraints.inner = remaining;
+            for (_, rhs) in undefined {
+                self.owned.diags.errors.push(
+                    Diagnostic::error(&rhs, "Division by zero in type expression")
+                        .primary_label("Division by zero"),
+                );
+            }
+
             if new_info.is_empty() {
                 break;
             }
-- 
2.43.0


From 6d7371ceeff582dd03157d712b3199e392c79055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 02/23] verif hook: expose type constraint internals under
 cfg(spade_verif)

---
 spade-typeinference/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 3d0dc0f..b8353c4 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -6,6 +6,7 @@
 // and should be done by the visitor for that node. The visitor should then unify
 // types according to the rules of the node.
 
+#![allow(unexpected_cfgs)]
 use std::cmp::PartialEq;
 use std::collections::{BTreeMap, BTreeSet, VecDeque};
 use std::sync::Arc;
@@ -82,6 +83,12 @@ mod shared;
 pub mod testutil;
 pub mod trace_stack;
 pub mod traits;
+/// Access to internals for external verification harnesses
+#[cfg(spade_verif)]
+pub mod verif {
+    pub use crate::constraints::*;
+    pub use crate::replacement::*;
+}
 
 type GenericList = HashMap<Generic, TypeVarID>;
 type GenericLists = HashMap<GenericListToken, GenericList>;
-- 
2.43.0


From eb49e68f66620b510b3351b81e547a28713e9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 03/23] fix: sign extending a one bit value indexed a scalar in
 the generated verilog

---
 spade-mir/src/codegen/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..7077d78 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -367,18 +367,18 @@ fn forward_expression_code(
             let self_size = self_type.size();
             if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
+                // One bit wide values are scalars which can not be indexed in verilog
+                let sign_bit = if operand_size == 1u32.to_biguint() {
+                    op_names[0].clone()
+                } else {
+                    format!("{}[{}]", op_names[0], operand_size - 1u32.to_biguint())
+                };
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
-                    Some(1) => format!(
-                        "{{{}[{}], {}}}",
-                        op_names[0],
-                        operand_size - 1u32.to_biguint(),
-                        op_names[0]
-                    ),
+                    Some(1) => format!("{{{}, {}}}", sign_bit, op_names[0]),
                     _ => format!(
-                        "#[#[ {extra_bits} #[ {op}[{last_index}] #]#], {op}#]",
+                        "#[#[ {extra_bits} #[ {sign_bit} #]#], {op}#]",
                         op = op_names[0],
-                        last_index = operand_size - 1u32.to_biguint(),
                     )
                     // For readability with the huge amount of braces that both
                     // rust and verilog want here, we'll insert them at the end
-- 
2.43.0


From 395a1db037252198f2aca9cedca22a3ecf964752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 04/23] fix: extension and reduction of zero sized operands
 referenced undeclared or underflowing wires

---
 spade-mir/src/codegen/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 7077d78..7fc93ae 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -267,12 +267,20 @@ fn forward_expression_code(
     }
 
     macro_rules! unop {
-        ($verilog:expr) => {{
+        ($verilog:expr $(; zst => $on_zero:expr)?) => {{
             assert!(
                 binding.operands.len() == 1,
                 "expected 1 operands to binary operator"
             );
-            format!("{}{}", $verilog, op_names[0])
+            #[allow(unused_mut)]
+            let mut result = format!("{}{}", $verilog, op_names[0]);
+
+            $(
+                if types[&ops[0]].size() == BigUint::ZERO {
+                    result = $on_zero.to_string();
+                }
+            )?
+            result
         }};
     }
 
@@ -322,9 +330,9 @@ fn forward_expression_code(
         Operator::BitwiseXor => binop!("^"),
         Operator::USub => unop!("-"),
         Operator::Not => unop!("!"),
-        Operator::ReduceAnd => unop!("&"),
-        Operator::ReduceOr => unop!("|"),
-        Operator::ReduceXor => unop!("^"),
+        Operator::ReduceAnd => unop!("&"; zst => "1'b1"),
+        Operator::ReduceOr => unop!("|"; zst => "1'b0"),
+        Operator::ReduceXor => unop!("^"; zst => "1'b0"),
         Operator::DivPow2 => {
             // Split into 3 cases: if the division amount is 2^0, nothing should
             // be done. Must be handled as a special case of the rest of the computation
@@ -365,7 +373,10 @@ fn forward_expression_code(
         Operator::SignExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::zero() {
+                // Zero sized operands are not declared in the generated verilog
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
                 // One bit wide values are scalars which can not be indexed in verilog
                 let sign_bit = if operand_size == 1u32.to_biguint() {
@@ -393,7 +404,10 @@ fn forward_expression_code(
         Operator::ZeroExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::zero() {
+                // Zero sized operands are not declared in the generated verilog
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - operand_size;
                 format!("{{{}'b0, {}}}", extra_bits, op_names[0])
             } else {
-- 
2.43.0


From a12c26d48fb263515d0b1d41a2ae8a3786623d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 05/23] fix: range indexing an array of inverted values used
 the forward member width for the backward wires

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 7fc93ae..2633c44 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -869,7 +869,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From 3a46b28cc0e932a74461257f3d9eade353d51440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 06/23] fix: reading a one bit member of a single variant enum
 read the whole enum

---
 spade-mir/src/codegen/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 2633c44..8251ee6 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -719,8 +719,9 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            // One bit wide values are scalars which can not be indexed in verilog
+            if full_size == 1u32.to_biguint() {
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 035437b4c5077d104ed8706de128537d7cfe3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 07/23] fix: indexing the same element of an array of inverted
 values twice drove its wires twice

---
 spade-mir/src/passes/deduplicate_mut_wires.rs | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..ef0cff0 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -107,12 +107,21 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 }
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
-    let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
-        ValueName,
-    > = HashMap::default();
+    let mut seen_statements: HashMap<(&Operator, Vec<ValueName>, &crate::types::Type), ValueName> =
+        HashMap::default();
     let mut replaced_names = HashMap::default();
 
+    // Every use of a constant gets a name of its own, but an index with the same value
+    // refers to the same wire
+    let mut seen_constants = HashMap::default();
+    let mut canonical_constants = HashMap::default();
+    for stmt in stmts {
+        if let Statement::Constant(name, ty, value) = &stmt.inner {
+            let canonical = *seen_constants.entry((ty, value)).or_insert(&name.inner);
+            canonical_constants.insert(&name.inner, canonical);
+        }
+    }
+
     for stmt in stmts {
         match &stmt.inner {
             Statement::Binding(Binding {
@@ -122,9 +131,21 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let canonical_operands = operands
+                    .iter()
+                    .map(|op| {
+                        canonical_constants
+                            .get(&op.inner)
+                            .copied()
+                            .unwrap_or(&op.inner)
+                            .clone()
+                    })
+                    .collect::<Vec<_>>();
+                let key = (operator, canonical_operands, ty);
+
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&key) {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
@@ -132,7 +153,7 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                         );
                     }
                 }
-                seen_statements.insert((operator, operands, ty), name.inner.clone());
+                seen_statements.insert(key, name.inner.clone());
             }
             Statement::Register(_) => {
                 // Empty, registers cannot contain mut wires
-- 
2.43.0


From 9cb7f06bfe2de822755742f8b8915e4f0b0f9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 08/23] fix: truncating a one bit value to one bit indexed a
 scalar in the generated verilog

---
 spade-mir/src/codegen/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 8251ee6..18e8dc5 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -355,11 +355,13 @@ fn forward_expression_code(
             }.to_string()
         }
         Operator::Truncate => {
-            format!(
-                "{}[{}:0]",
-                op_names[0],
-                binding.ty.size() - 1u32.to_biguint()
-            )
+            let self_size = self_type.size();
+            if self_size == 1u32.to_biguint() && types[&ops[0]].size() == self_size {
+                // One bit wide values are scalars which can not be indexed in verilog
+                op_names[0].clone()
+            } else {
+                format!("{}[{}:0]", op_names[0], self_size - 1u32.to_biguint())
+            }
         }
         Operator::Concat => {
             format!(
-- 
2.43.0


From 15310beb705965c2954088e66bf4e81ba6125f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 09/23] fix: checking impls of a trait for tuples of different
 lengths left a speculative scope behind

---
 spade-typeinference/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index b8353c4..21c7b6e 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -3585,6 +3585,11 @@ impl TypeState {
                                     if trait_impl.name != trait_req.name {
                                         return None;
                                     }
+                                    // NOTE: This must be checked before creating the checkpoint
+                                    // in order to not leave the checkpoint behind
+                                    if trait_impl.target_type_params.len() != params.len() {
+                                        return None;
+                                    }
                                     self.checkpoint();
                                     let trait_params_match = trait_impl
                                         .trait_type_params
@@ -3595,9 +3600,6 @@ impl TypeState {
                                             self.unify(&l, r, ctx).is_ok()
                                         });
 
-                                    if trait_impl.target_type_params.len() != params.len() {
-                                        return None;
-                                    }
                                     let impl_params_match =
                                         trait_impl.target_type_params.iter().zip(params).all(
                                             |(l, r)| {
-- 
2.43.0


From f67eddb7941644455937f31fb0252729d4b19e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 10/23] fix: equal type-level booleans overlap, so two impls of
 a trait for the same bool argument are rejected

---
 spade-hir/src/impl_tab.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spade-hir/src/impl_tab.rs b/spade-hir/src/impl_tab.rs
index 8edd265..1250ff0 100644
--- a/spade-hir/src/impl_tab.rs
+++ b/spade-hir/src/impl_tab.rs
@@ -147,6 +147,7 @@ pub fn type_exprs_overlap(l: &TypeExpression, r: &TypeExpression) -> bool {
         // of these branches overlap
         (TypeExpression::TypeSpec(_), _) | (_, TypeExpression::TypeSpec(_)) => true,
         // Base type-level values overlap if they are equal
+        (TypeExpression::Bool(rval), TypeExpression::Bool(lval)) => rval == lval,
         (TypeExpression::Integer(rval), TypeExpression::Integer(lval)) => rval == lval,
         (TypeExpression::String(rval), TypeExpression::String(lval)) => rval == lval,
         _ => false,
-- 
2.43.0


From 930446cf6d99f6660406e0d3ece3887ef9a016e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 11/23] fix: registers and constants without bits no longer
 crash the compiler or reference undeclared names

---
 spade-mir/src/codegen/mod.rs | 2 ++
 spade-mir/src/eval.rs        | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 18e8dc5..9d231c9 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1133,6 +1133,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Registers without bits are not declared, so there is nothing to clock
+        Statement::Register(reg) if reg.ty.size() == BigUint::ZERO => code! {},
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..c738892 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -44,6 +44,10 @@ impl Value {
 
     pub fn as_string(&self) -> String {
         match self {
+            // A number without bits is still printed as one digit
+            Value::Int { size, .. } | Value::UInt { size, .. } if *size == BigUint::ZERO => {
+                String::new()
+            }
             Value::Bit(val) => format!("{}", if *val { 1 } else { 0 }),
             Value::Int { size, val } => {
                 if *val >= 0i64.into() {
-- 
2.43.0


From a8a5eac9ad8913170723641bbaa9cf0b7b2a9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 12/23] fix: evaluate unsigned addition and subtraction of
 constants

---
 spade-mir/src/eval.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index c738892..7e45011 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -242,10 +242,17 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         size: ty.size(),
                         val: name_vals[&ops[0]].assume_int() - name_vals[&ops[1]].assume_int(),
                     },
-                    Operator::UnsignedSub => Value::UInt {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() - name_vals[&ops[1]].assume_uint(),
-                    },
+                    Operator::UnsignedSub => {
+                        let size = ty.size();
+                        let modulus = BigUint::from(1u32) << size.to_usize().unwrap();
+                        // A negative difference wraps around
+                        let val = &modulus + name_vals[&ops[0]].assume_uint()
+                            - name_vals[&ops[1]].assume_uint();
+                        Value::UInt {
+                            size,
+                            val: val % modulus,
+                        }
+                    }
                     Operator::Mul => todo!(),
                     Operator::UnsignedMul => todo!(),
                     Operator::Div => todo!(),
@@ -351,9 +358,15 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
             Statement::Register(_) => panic!("trying to evaluate a register"),
             Statement::Constant(name, ty, val) => {
                 let val = match val {
-                    crate::ConstantValue::Int(i) => Value::Int {
-                        size: ty.size(),
-                        val: i.clone(),
+                    crate::ConstantValue::Int(i) => match (ty, i.to_biguint()) {
+                        (Type::UInt(size), Some(val)) => Value::UInt {
+                            size: size.clone(),
+                            val,
+                        },
+                        _ => Value::Int {
+                            size: ty.size(),
+                            val: i.clone(),
+                        },
                     },
                     crate::ConstantValue::Bool(v) => Value::Bit(*v),
                     crate::ConstantValue::String(_) => todo!(),
-- 
2.43.0


From 2b0ad536daee5f68d3f90831d914af6e68b050df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 13/23] fix: constants with members wider than 64 bits are
 split into chunks correctly

---
 spade-mir/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index 7e45011..12207fd 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -163,7 +163,7 @@ impl Value {
                 let mut current = 0u32.to_biguint();
 
                 for next in inner {
-                    current = (current << next.width().to_u64().unwrap()) + next.as_u64()
+                    current = (current << next.width().to_u64().unwrap()) + next.as_u32_chunks()
                 }
                 current
             }
-- 
2.43.0


From 3e37c33c22356593a12e36c9eb720726ca61dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 14/23] fix: a constant whose only member has 64 bits no longer
 overflows as_u64

---
 spade-mir/src/eval.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index 12207fd..02bbe3b 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -122,10 +122,12 @@ impl Value {
             }
             Value::UInt { size: _, val } => val.to_u64().unwrap(),
             Value::Concat(inner) => {
-                let mut current = 0;
+                let mut current = 0u64;
 
                 for next in inner {
-                    current = (current << next.width().to_u64().unwrap()) + next.as_u64()
+                    // A member may be all 64 bits
+                    let width = next.width().to_u32().unwrap();
+                    current = current.checked_shl(width).unwrap_or(0) + next.as_u64()
                 }
                 current
             }
-- 
2.43.0


From cb6d86ae401dc78b23f3f259bc602905223136f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 15/23] fix: the compile time negation of the most negative
 number wraps around

---
 spade-mir/src/eval.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index 02bbe3b..8964c81 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -281,10 +281,14 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     Operator::BitwiseAnd => todo!(),
                     Operator::BitwiseOr => todo!(),
                     Operator::BitwiseXor => todo!(),
-                    Operator::USub => Value::Int {
-                        size: ty.size(),
-                        val: -name_vals[&ops[0]].assume_int(),
-                    },
+                    Operator::USub => {
+                        let size = ty.size();
+                        let modulus = BigInt::from(1) << size.to_usize().unwrap();
+                        let val = -name_vals[&ops[0]].assume_int();
+                        // The negation of the most negative number is itself
+                        let val = if &val + &val == modulus { -val } else { val };
+                        Value::Int { size, val }
+                    }
                     Operator::Not => todo!(),
                     Operator::BitwiseNot => todo!(),
                     Operator::DivPow2 => todo!(),
-- 
2.43.0


From aa8201528f92bcf367393379b8824e3a811883b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 16/23] fix: a dumped value longer than its type overflows a
 subtraction

---
 vcd-translate/src/translation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vcd-translate/src/translation.rs b/vcd-translate/src/translation.rs
index fecbd18..82e37cc 100644
--- a/vcd-translate/src/translation.rs
+++ b/vcd-translate/src/translation.rs
@@ -140,10 +140,6 @@ fn translate_unsigned_int(value: &[Value]) -> MaybeValue<BigUint> {
 pub fn inner_translate_value(result: &mut String, in_value: &[Value], t: &ConcreteType) {
     let value_len = in_value.len();
     let type_size = t.to_mir_type().size();
-    let missing_values = type_size
-        .to_usize()
-        .unwrap_or_else(|| panic!("Value is wider than {} bits", usize::MAX))
-        - value_len;
 
     // FIXME: This is a temporary hack to work around
     // lifeguard spade#214
@@ -151,6 +147,11 @@ pub fn inner_translate_value(result: &mut String, in_value: &[Value], t: &Concre
         return;
     }
 
+    let missing_values = type_size
+        .to_usize()
+        .unwrap_or_else(|| panic!("Value is wider than {} bits", usize::MAX))
+        - value_len;
+
     if type_size == BigUint::zero() {
         return;
     }
-- 
2.43.0


From c3959aa748cf576f018cbd0b584db11525ae03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 17/23] fix: a match on all but the largest integer is accepted
 as exhaustive

---
 spade-hir-lowering/src/pattern.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..b50b99a 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -32,7 +32,8 @@ fn split_int_range(
     let mut edges = other_ctors
         .flat_map(|other| {
             let (min, max) = other.as_range();
-            [min, max]
+            // The bounds of a range are inclusive, the next range starts after `max`
+            [min, max + 1u32.to_bigint()]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +42,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -327,7 +328,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From 113ed894a0ba99d7fc1401a729beb46f9fe17c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 18/23] fix: a match on a type with a clock or memory member is
 accepted whatever its other patterns are

---
 spade-hir-lowering/src/pattern.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index b50b99a..a840a41 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -130,13 +130,13 @@ pub(crate) fn split_wildcard(
 
                 group_missing_constructors(all_ctors, other_ctors)
             }
-            // Bit literals can't be matched on because you can't compare against z in hardware
-            spade_types::PrimitiveType::Tri => vec![],
-            // Special types for which there are no constructors which makes matching
-            // on them impossible
+            // Bit literals can't be matched on because you can't compare against z in hardware,
+            // but like arrays, they can be matched with variables
+            spade_types::PrimitiveType::Tri => vec![Constructor::Single],
+            // Special types for which there are no literals, which only variables can match
             spade_types::PrimitiveType::Clock
             | spade_types::PrimitiveType::Memory
-            | spade_types::PrimitiveType::InOut => vec![],
+            | spade_types::PrimitiveType::InOut => vec![Constructor::Single],
         },
         ConcreteType::Backward(_) => vec![Constructor::Single],
         ConcreteType::CopyView(_) => vec![Constructor::Single],
-- 
2.43.0


From 7e0cd803d8df60617bee2e9a323c620ba10ed96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 19/23] fix: a let binding of one enum variant among several is
 accepted

---
 spade-hir-lowering/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..d37b4de 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,31 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
             }
             spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+                // An enum variant does not match the other variants of its type
+                let is_only_variant = match ctx.types.concrete_type_of_infallible(
+                    self.id,
+                    ctx.symtab.symtab(),
+                    &ctx.item_list.types,
+                ) {
+                    ConcreteType::Enum { options } => options.len() == 1,
+                    _ => true,
+                };
+                is_only_variant
+                    && inner
+                        .iter()
+                        .all(|arg| arg.value.is_trivially_irrefutable(ctx))
             }
         }
     }
@@ -917,7 +929,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From 4afb43bc9db1c1fb545e39e1f4071272a22243f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 20/23] fix: a non-exhaustive match with an integer and a
 guarded wildcard panics

---
 spade-hir-lowering/src/pattern.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index a840a41..cbf4f28 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -214,7 +214,12 @@ impl Constructor {
     ) -> Vec<Self> {
         match self {
             Self::Wildcard => split_wildcard(ty, other_ctors),
-            Self::IntRange { min, max } => split_int_range(min.clone(), max.clone(), other_ctors),
+            Self::IntRange { min, max } => split_int_range(
+                min.clone(),
+                max.clone(),
+                // Wildcards are split into the range they cover
+                other_ctors.flat_map(|ctor| ctor.split(ty, vec![].into_iter())),
+            ),
             _ => vec![self.clone()],
         }
     }
-- 
2.43.0


From 0c2931bee507f6a9b636578181afedc650b33fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 21/23] fix: the latency of an if condition and of a matched
 value is ignored in a pipeline

---
 spade-hir-lowering/src/pipelines.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..c0c3556 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -701,14 +701,17 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
-                &values
-                    .iter()
-                    .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
-                    .flatten()
-                    .collect::<Vec<_>>(),
-                ctx,
-            ),
+            ExprKind::Match(matched, values) => {
+                let mut exprs = vec![];
+                for (_, if_cond, expr) in values {
+                    if let Some(if_cond) = if_cond {
+                        exprs.push(if_cond);
+                    }
+                    exprs.push(expr);
+                }
+                exprs.push(matched.as_ref());
+                try_compute_availability(&exprs, ctx)
+            }
             ExprKind::Block(inner) => {
                 // NOTE: Do we want to allow delayed values inside blocks? That could lead to some
                 // strange issues like
@@ -764,10 +767,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From 03592f131667fd8069ea952f6786d0dea952cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 22/23] fix: splitting a compound register gives every member
 the reset value of the whole

---
 spade-mir/src/passes/split_compound_regs.rs | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..59e8685 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,31 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // The reset value is a value of the whole compound, so it has to be split as well
+            let (reset, reset_stmts) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let reset_stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (
+                        Some((trigger.clone(), reset_name)),
+                        vec![reset_stmt.at_loc(reg)],
+                    )
+                }
+                None => (None, vec![]),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +90,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmts)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 5c64881df5257837f9986a273691a303959648f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 23/23] fix: clock gating indexes one bit values and emits too
 wide ranges

---
 spade-mir/src/codegen/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 9d231c9..a7e4fee 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -532,10 +532,17 @@ fn forward_expression_code(
             start,
             end_exclusive,
         } => {
-            if end_exclusive - start == 1u32.to_biguint() {
+            if types[&ops[0]].size() == 1u32.to_biguint() {
+                // One bit wide values are scalars which can not be indexed in verilog
+                op_names[0].clone()
+            } else if end_exclusive - start == 1u32.to_biguint() {
                 format!("{}[{start}]", op_names[0])
             } else {
-                format!("{}[{end_exclusive}:{start}]", op_names[0])
+                format!(
+                    "{}[{}:{start}]",
+                    op_names[0],
+                    end_exclusive - 1u32.to_biguint()
+                )
             }
         }
         Operator::DeclClockedMemory { initial } => {
-- 
2.43.0

