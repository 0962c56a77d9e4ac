From a78f9c568d38f3e1952c6ab566b568ea675a3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 01/43] fix: read the right bits of one-bit fields in
 single-variant enums

The member of an enum without tag bits was emitted as the whole value whenever
the member is one bit wide, so that all one-bit fields of such an enum read its
least significant bit. Only an enum that is one bit in total may be used as is.
---
 spade-mir/src/codegen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..4d7e9c6 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -705,8 +705,8 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            if full_size == 1u32.to_biguint() {
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 3da0e240cb1a9923a4b2e7cda02c106a49f7f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 02/43] fix: pipeline availability of if conditions and match
 scrutinees

The condition of an if and the scrutinee of a match were left out when computing
when an expression is available, so a nested pipeline used there could be read
before its result exists.
---
 spade-hir-lowering/src/pipelines.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..6e64ce7 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -701,11 +701,12 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
+            ExprKind::Match(scrutinee, values) => try_compute_availability(
                 &values
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain([scrutinee.as_ref()])
                     .collect::<Vec<_>>(),
                 ctx,
             ),
@@ -764,10 +765,12 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => {
+                try_compute_availability(&[on_true.as_ref(), on_false.as_ref(), cond.as_ref()], ctx)
+            }
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From 62bfd21dbac0d9b8ad8134b8f30049fcd396e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 03/43] fix: reset each part of a split compound register to
 its part of the reset value

---
 spade-mir/src/passes/split_compound_regs.rs | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..c911ce5 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,31 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // Each part is reset to the corresponding part of the reset value
+            let (reset, reset_stmt) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let reset_stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (
+                        Some((trigger.clone(), reset_name)),
+                        Some(reset_stmt.at_loc(reg)),
+                    )
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +90,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From e09103dce17cb6cd342558f6204eee569e27ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 04/43] fix: emit no always block for registers of zero size

---
 spade-mir/src/codegen/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 4d7e9c6..c0c7822 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1116,6 +1116,10 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        Statement::Register(reg) if reg.ty.size() == BigUint::zero() => {
+            // Registers without content are not declared, so there is nothing to drive
+            code! {}
+        }
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
-- 
2.43.0


From 1f6bea8638d7d41a7ba6000445de5c57574fed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 05/43] fix: do not clock gate enums whose payload has no bits

---
 spade-mir/src/passes/auto_clock_gating.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/passes/auto_clock_gating.rs b/spade-mir/src/passes/auto_clock_gating.rs
index 6000e9e..6ffc801 100644
--- a/spade-mir/src/passes/auto_clock_gating.rs
+++ b/spade-mir/src/passes/auto_clock_gating.rs
@@ -1,4 +1,4 @@
-use num::BigUint;
+use num::{BigUint, Zero};
 use spade_common::{
     id_tracker::ExprIdTracker,
     location_info::{Loc, WithLocation},
@@ -69,7 +69,10 @@ impl RegExt for Loc<&Register> {
         }
         match &self.ty {
             crate::types::Type::Enum(variants) => {
-                if variants.len() == 2 && variants[0].len() == 0 {
+                // If the payload has no bits, there is nothing to gate
+                let has_payload =
+                    |variant: &Vec<Type>| variant.iter().any(|ty| ty.size() != BigUint::zero());
+                if variants.len() == 2 && variants[0].len() == 0 && has_payload(&variants[1]) {
                     let mut new_statements = vec![];
 
                     let tag_reg_name = ValueName::Expr(expr_idtracker.next()).at_loc(self);
-- 
2.43.0


From 553985cb467dc652630d9754d4fb8fdb7aef5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 06/43] fix: escape Verilog names that contain characters other
 than letters, digits and _

---
 spade-mir/src/codegen/util.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/spade-mir/src/codegen/util.rs b/spade-mir/src/codegen/util.rs
index daa3a65..9201fe2 100644
--- a/spade-mir/src/codegen/util.rs
+++ b/spade-mir/src/codegen/util.rs
@@ -16,7 +16,11 @@ impl ValueName {
     // Returns true if this name needs to be escaped using `\ `
     pub fn needs_escaping(&self) -> bool {
         match self {
-            ValueName::Named(id, _, _) => *id == 0,
+            // Names without an id can collide with verilog keywords. Other names only need to be
+            // escaped if they contain characters that a plain verilog identifier cannot contain
+            ValueName::Named(id, name, _) => {
+                *id == 0 || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+            }
             ValueName::Expr(_) => false,
         }
     }
@@ -30,17 +34,10 @@ impl ValueName {
     }
 
     pub fn backward_var_name(&self) -> String {
-        match self {
-            ValueName::Named(id, name, _) => {
-                if *id == 0 {
-                    format!("\\{}_mut ", name)
-                } else {
-                    format!("{}_n{}_mut", name, id)
-                }
-            }
-            ValueName::Expr(id) => {
-                format!("_e_{}_mut", id.0)
-            }
+        if self.needs_escaping() {
+            format!("\\{}_mut ", self.unescaped_var_name())
+        } else {
+            format!("{}_mut", self.unescaped_var_name())
         }
     }
 }
-- 
2.43.0


From ceeaa59c0656143000b6eaaa664eed8fb164040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 07/43] fix: never give two values, ports or instances of a
 module the same Verilog name

---
 spade-mir/src/renaming.rs | 103 +++++++++++++++++++++++++++++++++-----
 1 file changed, 91 insertions(+), 12 deletions(-)

diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index a371af2..7d30400 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -1,4 +1,5 @@
-use rustc_hash::FxHashMap as HashMap;
+use num::Zero;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     id_tracker::ExprID,
@@ -6,7 +7,12 @@ use spade_common::{
     name::NameID,
 };
 
-use crate::{Binding, Entity, MirInput, Register, ValueName};
+use crate::{
+    codegen::util::{mangle_input, mangle_output},
+    types::Type,
+    unit_name::UnitNameKind,
+    Binding, Entity, MirInput, Operator, Register, Statement, ValueName,
+};
 
 /// Mapping from verilog name back to the corresponding NameID
 #[derive(Serialize, Deserialize, Debug, Clone)]
@@ -55,6 +61,8 @@ pub enum VerilogNameSource {
 pub struct NameState {
     /// Mapping between names and the amount of copies of that name we've seen so far
     names: HashMap<String, u64>,
+    /// Verilog identifiers which are already taken in the module
+    used: HashSet<String>,
     /// Mapping between ValueName and predictable name
     name_map: HashMap<Loc<ValueName>, Loc<ValueName>>,
 }
@@ -69,21 +77,41 @@ impl NameState {
     pub fn new() -> NameState {
         Self {
             names: HashMap::default(),
+            used: HashSet::default(),
             name_map: HashMap::default(),
         }
     }
 
-    pub fn push(&mut self, name: &Loc<ValueName>) {
+    /// Make sure that no value is given the specified verilog identifier
+    pub fn reserve(&mut self, verilog_name: String) {
+        self.used.insert(verilog_name);
+    }
+
+    pub fn push(&mut self, name: &Loc<ValueName>, ty: &Type) {
         let new_name = match &name.inner {
-            ValueName::Named(_, name_str, source) => {
+            ValueName::Named(_, name_str, source) => loop {
                 let id = self
                     .names
                     .entry(name_str.clone())
                     .and_modify(|v| *v += 1)
                     .or_insert(0);
 
-                ValueName::Named(*id, name_str.clone(), source.clone())
-            }
+                let candidate = ValueName::Named(*id, name_str.clone(), source.clone());
+
+                // The new name must not be the same as that of another value in the module, i.e.
+                // a variable called `x_n1` is not the same thing as the second variable called `x`
+                let forward = candidate.unescaped_var_name();
+                let backward =
+                    (!ty.backward_size().is_zero()).then(|| format!("{forward}_mut"));
+                if std::iter::once(&forward)
+                    .chain(&backward)
+                    .all(|n| !self.used.contains(n) && !is_anonymous_name(n))
+                {
+                    self.used.insert(forward);
+                    self.used.extend(backward);
+                    break candidate;
+                }
+            },
             v @ ValueName::Expr(_) => v.clone(),
         }
         .at_loc(name);
@@ -99,6 +127,55 @@ impl NameState {
     }
 }
 
+/// True if the verilog identifier is one that is used for values without a name in the source
+fn is_anonymous_name(name: &str) -> bool {
+    name.strip_prefix("_e_")
+        .map(|rest| rest.strip_suffix("_mut").unwrap_or(rest))
+        .is_some_and(|rest| !rest.is_empty() && rest.chars().all(|c| c.is_ascii_digit()))
+}
+
+/// Reserve the identifiers of things in the module which are not values: the ports and the
+/// instances of other modules
+fn reserve_module_names(state: &mut NameState, inputs: &[MirInput], statements: &[Loc<Statement>]) {
+    state.reserve("output__".to_string());
+    state.reserve("input__".to_string());
+
+    for MirInput {
+        name,
+        val_name: _,
+        ty,
+        no_mangle,
+    } in inputs
+    {
+        // Inputs that are not mangled use the same name for the port and the value
+        if no_mangle.is_none() {
+            if !ty.size().is_zero() {
+                state.reserve(mangle_input(no_mangle, name));
+            }
+            if !ty.backward_size().is_zero() {
+                state.reserve(mangle_output(no_mangle, name));
+            }
+        }
+    }
+
+    let mut instances = HashMap::<&str, usize>::default();
+    for stmt in statements {
+        if let Statement::Binding(Binding {
+            operator: Operator::Instance { name, .. },
+            ..
+        }) = &stmt.inner
+        {
+            let instance = match &name.kind {
+                UnitNameKind::Escaped { name, path } => path.last().unwrap_or(name),
+                UnitNameKind::Unescaped(name) => name,
+            };
+            let count = instances.entry(instance).or_default();
+            state.reserve(format!("{instance}_{count}"));
+            *count += 1;
+        }
+    }
+}
+
 pub fn make_names_predictable(e: &mut Entity) -> NameState {
     let mut state = NameState::new();
 
@@ -114,8 +191,10 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
             inline: _,
         } = e;
 
+        reserve_module_names(&mut state, inputs, statements);
+
         for input in inputs {
-            state.push(&input.clone().val_name);
+            state.push(&input.val_name, &input.ty);
         }
 
         for stmt in statements {
@@ -124,19 +203,19 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
                     name,
                     operator: _,
                     operands: _,
-                    ty: _,
+                    ty,
                     loc: _,
-                }) => state.push(name),
+                }) => state.push(name, ty),
                 crate::Statement::Register(Register {
                     name,
-                    ty: _,
+                    ty,
                     clock: _,
                     reset: _,
                     initial: _,
                     value: _,
                     loc: _,
-                }) => state.push(name),
-                crate::Statement::Constant(name, _, _) => state.push(name),
+                }) => state.push(name, ty),
+                crate::Statement::Constant(name, ty, _) => state.push(name, ty),
                 crate::Statement::Assert(_) => {}
                 crate::Statement::Set {
                     target: _,
-- 
2.43.0


From 4d623606a8dd7edb6d0afd5f2505ecdc8ba264fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 08/43] fix: deduplicate mutable wires that index with equal
 constants

---
 spade-mir/src/passes/deduplicate_mut_wires.rs | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..4311eeb 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -108,11 +108,25 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
     let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
+        (&Operator, Vec<Loc<ValueName>>, &crate::types::Type),
         ValueName,
     > = HashMap::default();
     let mut replaced_names = HashMap::default();
 
+    // Two statements are also duplicates if their operands are different constants with the same
+    // value, which is what happens when the same array index is written twice
+    let mut seen_constants: HashMap<(&crate::types::Type, &crate::ConstantValue), Loc<ValueName>> =
+        HashMap::default();
+    let mut same_constants: HashMap<Loc<ValueName>, Loc<ValueName>> = HashMap::default();
+    for stmt in stmts {
+        if let Statement::Constant(name, ty, value) = &stmt.inner {
+            let first = seen_constants
+                .entry((ty, value))
+                .or_insert_with(|| name.clone());
+            same_constants.insert(name.clone(), first.clone());
+        }
+    }
+
     for stmt in stmts {
         match &stmt.inner {
             Statement::Binding(Binding {
@@ -122,9 +136,14 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let operands = operands
+                    .iter()
+                    .map(|op| same_constants.get(op).unwrap_or(op).clone())
+                    .collect::<Vec<_>>();
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&(operator, operands.clone(), ty))
+                    {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
-- 
2.43.0


From 4c18e08fe1fed749d0795b09c32ace83123b3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 09/43] fix: escape the source code quoted by the message of an
 assertion

---
 spade-mir/src/codegen/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index c0c7822..745d167 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1180,6 +1180,12 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 .unwrap_or_else(|_| String::new())
                 .lines()
                 .map(|line| {
+                    // The message quotes the source code, it is neither verilog code nor a
+                    // format string
+                    let line = line
+                        .replace('\\', r"\\")
+                        .replace('"', r#"\""#)
+                        .replace('%', "%%");
                     format!(r#"$display("{line}");"#)
                 })
                 .join("\n");
-- 
2.43.0


From ffbd2539882ee0d069736b19d2179eca4f1fe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 10/43] fix: evaluate assertions whose condition is a constant

---
 spade-mir/src/codegen/mod.rs |  8 +++++++-
 spade-mir/src/type_list.rs   | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 745d167..0bd5746 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1191,9 +1191,15 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 .join("\n");
 
             let val_var = val.var_name();
+            // A constant never changes, so nothing would trigger an always block waiting for it
+            let trigger = if ctx.types.is_constant(val) {
+                "initial begin".to_string()
+            } else {
+                format!("always @({val_var}) begin")
+            };
             code! {
                 [0] format!("`ifndef SYNTHESIS");
-                [0] format!("always @({val_var}) begin");
+                [0] trigger;
                     // This #0 is a bit unintiutive, but it seems to prevent assertions
                     // triggering too early. For example, in the case of !(x == 1 && y == 2)
                     // if x 1 and updated to 2 in the time step as y is updated to not be 2,
diff --git a/spade-mir/src/type_list.rs b/spade-mir/src/type_list.rs
index 8aa7c15..6564ad6 100644
--- a/spade-mir/src/type_list.rs
+++ b/spade-mir/src/type_list.rs
@@ -1,16 +1,19 @@
 use crate::{Entity, MirInput, Statement, ValueName, types::Type};
-use rustc_hash::FxHashMap as HashMap;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use spade_common::location_info::Loc;
 
 #[derive(Debug)]
 pub struct MirTypeList {
     inner: HashMap<ValueName, Type>,
+    /// The values which are constants, i.e. never change
+    constants: HashSet<ValueName>,
 }
 
 impl MirTypeList {
     pub fn empty() -> Self {
         Self {
             inner: HashMap::default(),
+            constants: HashSet::default(),
         }
     }
 
@@ -43,6 +46,7 @@ impl MirTypeList {
                 }
                 Statement::Constant(idx, ty, _) => {
                     self.inner.insert(idx.inner.clone(), ty.clone());
+                    self.constants.insert(idx.inner.clone());
                 }
                 Statement::Assert(_) => {}
                 Statement::Set { .. } => {
@@ -53,6 +57,10 @@ impl MirTypeList {
         }
     }
 
+    pub fn is_constant(&self, name: &ValueName) -> bool {
+        self.constants.contains(name)
+    }
+
     /// Allows in place construction of a type list
     #[cfg(test)]
     pub fn with(mut self, v: ValueName, t: Type) -> Self {
-- 
2.43.0


From 6677e3b511a10edcb7a910d209eef117e455ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 11/43] fix: check the exhaustiveness of integer patterns with
 inclusive ranges

---
 spade-hir-lowering/src/pattern.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..90182b8 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -30,10 +30,13 @@ fn split_int_range(
     other_ctors: impl Iterator<Item = Constructor> + Clone,
 ) -> Vec<Constructor> {
     let mut edges = other_ctors
-        .flat_map(|other| {
-            let (min, max) = other.as_range();
-            [min, max]
+        .filter_map(|other| match other {
+            // The bounds are inclusive, so the next range starts after `max`
+            Constructor::IntRange { min, max } => Some([min, max + 1u32.to_bigint()]),
+            // Anything else, such as a wildcard, adds no edges
+            _ => None,
         })
+        .flatten()
         .collect::<Vec<_>>();
     edges.sort();
     edges.dedup();
@@ -41,7 +44,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -288,13 +291,6 @@ impl Constructor {
     pub fn arity(&self, ty: &ConcreteType) -> usize {
         self.fields(ty).len()
     }
-
-    fn as_range(&self) -> (BigInt, BigInt) {
-        match self {
-            Constructor::IntRange { min, max } => (min.clone(), max.clone()),
-            other => panic!("Interprerting {other:?} constructor as range"),
-        }
-    }
 }
 
 #[derive(Clone, Debug)]
@@ -327,7 +323,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From da92fb1c2b894af7cf0cde5dcbe9d59eb100ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 12/43] fix: reject a let or reg that binds one variant of an
 enum with several

---
 spade-hir-lowering/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..f3cf6fc 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,27 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
             }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+            spade_hir::PatternKind::Type(path, inner) => {
+                // A variant of an enum does not match the other variants
+                let is_struct = matches!(
+                    ctx.symtab.symtab().patternable_type_by_id(path).kind,
+                    hir::symbol_table::PatternableKind::Struct
+                );
+                is_struct
+                    && inner
+                        .iter()
+                        .all(|arg| arg.value.is_trivially_irrefutable(ctx))
             }
         }
     }
@@ -917,7 +925,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From 58f1420ffe1ee628823c70a5f4338e90f3685415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 13/43] fix: report duplicate pipeline labels and inst(depth)
 of non-pipelines without crashing

---
 spade-ast-lowering/src/pipelines.rs | 11 ++++++++++-
 spade-typeinference/src/lib.rs      | 13 +++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/spade-ast-lowering/src/pipelines.rs b/spade-ast-lowering/src/pipelines.rs
index 928d73e..2f58e08 100644
--- a/spade-ast-lowering/src/pipelines.rs
+++ b/spade-ast-lowering/src/pipelines.rs
@@ -1,8 +1,9 @@
 use hir::symbol_table::TypeSymbol;
+use rustc_hash::FxHashMap as HashMap;
 use spade_ast as ast;
 use spade_common::location_info::Loc;
 use spade_common::location_info::WithLocation;
-use spade_common::name::Path;
+use spade_common::name::{Identifier, Path};
 use spade_diagnostics::Diagnostic;
 use spade_hir as hir;
 use spade_types::meta_types::MetaType;
@@ -70,7 +71,15 @@ pub fn maybe_perform_pipelining_tasks(
                 .note("All pipelines need to take at least a clock as an argument"));
             }
 
+            let mut labels: HashMap<Identifier, Loc<()>> = HashMap::default();
             for statement in &body.as_ref().unwrap().assume_block().statements {
+                if let ast::Statement::Label(name) = &statement.inner {
+                    if let Some(prev) = labels.insert(name.inner.clone(), name.loc()) {
+                        return Err(Diagnostic::error(name, "Multiple labels with the same name")
+                            .primary_label(format!("'{name} is defined multiple times"))
+                            .secondary_label(prev, "Previously defined here"));
+                    }
+                }
                 visit_pipeline_statement(statement, ctx)?;
             }
 
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..d8d6981 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1454,6 +1454,19 @@ impl TypeState {
                         self,
                     )?;
             }
+            (
+                _,
+                CallKind::Pipeline {
+                    inst_loc: _,
+                    depth: cdepth,
+                    depth_typeexpr_id: cdepth_typeexpr_id,
+                },
+            ) => {
+                // The wrong instantiation kind is reported during lowering which needs to look
+                // up the depth
+                let call_depth = self.hir_type_expr_to_var(cdepth, generic_list, ctx)?;
+                self.add_equation(TypedExpression::Id(*cdepth_typeexpr_id), call_depth);
+            }
             _ => {}
         }
 
-- 
2.43.0


From bbfc21cc267406555e5619158539791b0f2c47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 14/43] fix: reject delayed values used before they are ready
 in nested blocks and statements

---
 spade-ast-lowering/src/pipelines.rs    |  8 ++--
 spade-hir-lowering/src/lib.rs          |  3 ++
 spade-hir-lowering/src/pipelines.rs    | 58 +++++++++++++++++++++++---
 spade-hir-lowering/src/substitution.rs | 26 ++++++++++++
 4 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/spade-ast-lowering/src/pipelines.rs b/spade-ast-lowering/src/pipelines.rs
index 2f58e08..7a90fe8 100644
--- a/spade-ast-lowering/src/pipelines.rs
+++ b/spade-ast-lowering/src/pipelines.rs
@@ -75,9 +75,11 @@ pub fn maybe_perform_pipelining_tasks(
             for statement in &body.as_ref().unwrap().assume_block().statements {
                 if let ast::Statement::Label(name) = &statement.inner {
                     if let Some(prev) = labels.insert(name.inner.clone(), name.loc()) {
-                        return Err(Diagnostic::error(name, "Multiple labels with the same name")
-                            .primary_label(format!("'{name} is defined multiple times"))
-                            .secondary_label(prev, "Previously defined here"));
+                        return Err(
+                            Diagnostic::error(name, "Multiple labels with the same name")
+                                .primary_label(format!("'{name} is defined multiple times"))
+                                .secondary_label(prev, "Previously defined here"),
+                        );
                     }
                 }
                 visit_pipeline_statement(statement, ctx)?;
diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index f3cf6fc..9ec85cf 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1770,6 +1770,9 @@ impl ExprLocal for Loc<Expression> {
             ExprKind::Block(block) => {
                 for statement in &block.statements {
                     result.append(statement.lower(ctx)?);
+                    if ctx.subs.is_pipeline() {
+                        pipelines::check_statement_availability(statement, ctx)?;
+                    }
                 }
                 if let Some(block_result) = &block.result {
                     result.append(block_result.lower(ctx)?);
diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 6e64ce7..61c49a0 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -116,6 +116,7 @@ pub fn handle_statement(
         Statement::PipelineRegMarker(extra) => {
             let local_cond = match extra {
                 Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
+                    require_available(cond, ctx)?;
                     statements.append(cond.lower(ctx)?);
                     Some(cond.variable(ctx)?)
                 }
@@ -211,6 +212,40 @@ pub fn handle_statement(
     Ok(())
 }
 
+/// Checks that everything a statement uses immediately is available in the current stage, and
+/// records when the names bound in nested blocks are available. There are no stages inside such
+/// blocks, so names that are not available right away cannot be used there.
+pub fn check_statement_availability(statement: &Loc<Statement>, ctx: &mut Context) -> Result<()> {
+    let (pattern, value) = match &statement.inner {
+        Statement::Binding(binding) => (&binding.pattern, &binding.value),
+        Statement::Register(reg) => {
+            require_available(&reg.clock, ctx)?;
+            if let Some((trigger, value)) = &reg.reset {
+                require_available(trigger, ctx)?;
+                require_available(value, ctx)?;
+            }
+            (&reg.pattern, &reg.value)
+        }
+        Statement::Assert(expr) => return require_available(expr, ctx),
+        Statement::Set { target, value } => {
+            require_available(target, ctx)?;
+            return require_available(value, ctx);
+        }
+        _ => return Ok(()),
+    };
+    let time = value.available_in(ctx)?.unwrap_or(0);
+    for (name, wire) in pattern.get_names_and_wireness() {
+        if wire.is_some() {
+            continue;
+        }
+        let ty =
+            ctx.types
+                .concrete_type_of_name(&name, ctx.symtab.symtab(), &ctx.item_list.types)?;
+        ctx.subs.set_nested_available(name, time, ty);
+    }
+    Ok(())
+}
+
 pub fn lower_pipeline<'a>(
     hir_inputs: &Vec<Input>,
     body: &Loc<Expression>,
@@ -661,6 +696,21 @@ pub fn try_compute_availability(
     Ok(result)
 }
 
+/// Reports an error if the value of the expression is not available in the current stage
+fn require_available(expr: &Loc<Expression>, ctx: &Context) -> Result<()> {
+    match expr.available_in(ctx)?.unwrap_or(0) {
+        0 => Ok(()),
+        latency => {
+            let plural = if latency == 1 { "" } else { "s" };
+            Err(
+                Diagnostic::error(expr, "Use of value before it is ready").primary_label(format!(
+                    "This is unavailable for another {latency} stage{plural}"
+                )),
+            )
+        }
+    }
+}
+
 #[local_impl]
 impl PipelineAvailability for Expression {
     // Computes the availability of an expression. Returns `None` if the expression is always
@@ -711,12 +761,8 @@ impl PipelineAvailability for Expression {
                 ctx,
             ),
             ExprKind::Block(inner) => {
-                // NOTE: Do we want to allow delayed values inside blocks? That could lead to some
-                // strange issues like
-                // {
-                //      let x = inst(10) subpipe();
-                //      x // Will appear as having availability 1
-                // }
+                // NOTE: Delayed values bound inside the block are not usable in the block, that is
+                // checked when the block is lowered
                 if let Some(result) = &inner.result {
                     result.available_in(ctx)
                 } else {
diff --git a/spade-hir-lowering/src/substitution.rs b/spade-hir-lowering/src/substitution.rs
index 04e5b17..645bedf 100644
--- a/spade-hir-lowering/src/substitution.rs
+++ b/spade-hir-lowering/src/substitution.rs
@@ -152,6 +152,32 @@ impl Substitutions {
             .insert(from.inner.clone(), availability);
     }
 
+    /// Whether or not we are lowering a pipeline
+    pub fn is_pipeline(&self) -> bool {
+        !self.live_vars.is_empty()
+    }
+
+    /// Mark a variable of a nested block as available `time` stages after the stage which
+    /// is currently being lowered. Does nothing for the variables in the top scope.
+    pub fn set_nested_available(&mut self, name: Loc<NameID>, time: usize, ty: ConcreteType) {
+        let stage = self.current_stage;
+        if time == 0
+            || self.inner[stage].contains_key(&name.inner)
+            || ty.to_mir_type().size() == BigUint::zero()
+        {
+            return;
+        }
+        self.inner[stage].insert(
+            name.inner.clone(),
+            Substitution::Waiting {
+                stages_left: time,
+                original_stage: stage,
+                available_at: stage + time,
+                definition: name,
+            },
+        );
+    }
+
     pub fn set_wire(&mut self, name: Loc<NameID>) {
         self.live_vars.push(name.clone());
         self.inner
-- 
2.43.0


From 742035fdce427d5310737b1628c20aa0e61eacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 15/43] fix: resolve lib and pub(lib) against the library they
 are written in

---
 spade-hir/src/symbol_table.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1c8d773..f034c0e 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -549,6 +549,8 @@ pub struct SymbolTable {
     namespace: Path,
     /// The namespace which `lib` refers to currently.
     base_namespace: Path,
+    /// The namespaces of all libraries seen so far, i.e. everything that `lib` can refer to.
+    base_namespaces: HashSet<Path>,
     #[serde(skip)]
     diags: Arc<Mutex<DiagList>>,
 }
@@ -569,6 +571,7 @@ impl SymbolTable {
             lang_items: HashMap::default(),
             namespace: Path(vec![]),
             base_namespace: Path(vec![]),
+            base_namespaces: HashSet::default(),
             diags,
         };
 
@@ -642,9 +645,21 @@ impl SymbolTable {
     }
 
     pub fn set_base_namespace(&mut self, base_namespace: Path) {
+        self.base_namespaces.insert(base_namespace.clone());
         self.base_namespace = base_namespace
     }
 
+    /// The namespace which `lib` refers to in the specified namespace. This differs from
+    /// the current base namespace when looking at items of another library.
+    fn base_namespace_of(&self, namespace: &Path) -> Path {
+        self.base_namespaces
+            .iter()
+            .filter(|base| namespace.0.starts_with(&base.0))
+            .max_by_key(|base| base.0.len())
+            .unwrap_or(&self.base_namespace)
+            .clone()
+    }
+
     /// Adds a thing to the scope at `current_scope - offset`. Panics if there is no such scope
     pub fn add_thing_with_id_at_offset(
         &mut self,
@@ -1303,7 +1318,7 @@ impl SymbolTable {
             (PathPrefix::FromLib, lib_relative_path) => {
                 let segments = lib_relative_path.0.clone();
                 let off = self.current_scope();
-                let ns = self.base_namespace.clone();
+                let ns = self.base_namespace_of(namespace);
 
                 (off, ns, segments)
             }
@@ -1406,7 +1421,9 @@ impl SymbolTable {
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
-                            Visibility::AtLib => self.base_namespace.clone(),
+                            Visibility::AtLib => {
+                                self.base_namespace_of(&working_path.prelude())
+                            }
                             Visibility::AtSelf => working_path.prelude(),
                             Visibility::AtSuper => working_path.prelude().prelude(),
                             Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
-- 
2.43.0


From ac4e202ece36f4b1786d426da57f9a1743d8284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 16/43] fix: do not crash on pub(super) items close to the root
 namespace

---
 spade-common/src/name.rs      | 5 +++++
 spade-hir/src/symbol_table.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spade-common/src/name.rs b/spade-common/src/name.rs
index a5777c3..4e7fcdb 100644
--- a/spade-common/src/name.rs
+++ b/spade-common/src/name.rs
@@ -249,6 +249,11 @@ impl Path {
         Self(self.0[0..self.0.len() - 1].to_owned())
     }
 
+    /// Returns the path without its `levels` last segments, or the root if there are fewer
+    pub fn ancestor(&self, levels: usize) -> Path {
+        Self(self.0[0..self.0.len().saturating_sub(levels)].to_owned())
+    }
+
     pub fn starts_with(&self, other: &Path) -> bool {
         self.0.iter().zip(&other.0).all(|(l, r)| l == r)
     }
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index f034c0e..92f1ea7 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1425,8 +1425,8 @@ impl SymbolTable {
                                 self.base_namespace_of(&working_path.prelude())
                             }
                             Visibility::AtSelf => working_path.prelude(),
-                            Visibility::AtSuper => working_path.prelude().prelude(),
-                            Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
+                            Visibility::AtSuper => working_path.ancestor(2),
+                            Visibility::AtSuperSuper => working_path.ancestor(3),
                         };
 
                         let is_visible =
-- 
2.43.0


From e03dc2b07f798c2707a35d37112cbd0dc9e9909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 17/43] fix: close scopes when lowering a unit, match arm or
 lambda fails

---
 spade-ast-lowering/src/lambda.rs |  3 ++-
 spade-ast-lowering/src/lib.rs    | 32 ++++++++++++++++++++------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/spade-ast-lowering/src/lambda.rs b/spade-ast-lowering/src/lambda.rs
index c2f52ab..9f7be47 100644
--- a/spade-ast-lowering/src/lambda.rs
+++ b/spade-ast-lowering/src/lambda.rs
@@ -127,9 +127,10 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
     let arguments = actual_args
         .iter()
         .map(|arg| arg.try_visit(visit_pattern, ctx))
-        .collect::<Result<Vec<_>>>()?;
+        .collect::<Result<Vec<_>>>();
     let hir_body = body.try_map_ref(|body| visit_block(body, ctx));
     ctx.symtab.close_scope();
+    let arguments = arguments?;
     let hir_body = Box::new(
         hir_body?.map(|body| hir::ExprKind::Block(Box::new(body)).with_id(ctx.idtracker.next())),
     );
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index ffc4d59..0a267e7 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1294,6 +1294,18 @@ pub fn visit_unit(
     unit: &Loc<ast::Unit>,
     scope_type_params: &Option<Loc<Vec<Loc<ast::TypeParam>>>>,
     ctx: &mut Context,
+) -> Result<hir::Item> {
+    ctx.symtab.new_scope();
+    let result = visit_unit_inner(extra_path, unit, scope_type_params, ctx);
+    ctx.symtab.close_scope();
+    result
+}
+
+fn visit_unit_inner(
+    extra_path: Option<Path>,
+    unit: &Loc<ast::Unit>,
+    scope_type_params: &Option<Loc<Vec<Loc<ast::TypeParam>>>>,
+    ctx: &mut Context,
 ) -> Result<hir::Item> {
     let ast::Unit {
         head:
@@ -1312,8 +1324,6 @@ pub fn visit_unit(
         body,
     } = &unit.inner;
 
-    ctx.symtab.new_scope();
-
     let path = extra_path
         .unwrap_or(Path(vec![]))
         .join(Path::ident(name.clone()))
@@ -1384,7 +1394,6 @@ pub fn visit_unit(
 
     // If this is a extern entity
     if body.is_none() {
-        ctx.symtab.close_scope();
         return Ok(hir::Item::ExternUnit(unit_name, head));
     }
 
@@ -1431,7 +1440,6 @@ pub fn visit_unit(
         .unwrap()
         .map_ref(|body| visit_expression(&body, ctx));
 
-    ctx.symtab.close_scope();
     ctx.current_unit = None;
 
     Ok(hir::Item::Unit(expand_type_level_if(
@@ -2473,14 +2481,14 @@ fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir
             let b = branches
                 .iter()
                 .map(|(pattern, if_condition, result)| {
-                    ctx.symtab.new_scope();
-                    let p = pattern.try_visit(visit_pattern, ctx)?;
-                    let c = if_condition
-                        .as_ref()
-                        .map(|c| c.visit(visit_expression, ctx));
-                    let r = result.visit(visit_expression, ctx);
-                    ctx.symtab.close_scope();
-                    Ok((p, c, r))
+                    ctx.in_new_scope(|ctx| {
+                        let p = pattern.try_visit(visit_pattern, ctx)?;
+                        let c = if_condition
+                            .as_ref()
+                            .map(|c| c.visit(visit_expression, ctx));
+                        let r = result.visit(visit_expression, ctx);
+                        Ok((p, c, r))
+                    })
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-- 
2.43.0


From 00bb19e741e7dbb4fa514e93bafc1d3249ea99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 18/43] fix: look up modules by their absolute path when
 lowering them

---
 spade-ast-lowering/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 0a267e7..804a159 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1607,12 +1607,14 @@ pub fn visit_module(module: &ast::Module, ctx: &mut Context) -> Result<()> {
     let path = &ctx
         .symtab
         .current_namespace()
-        .clone()
+        .push_ident(module.name.clone())
         .at_loc(&module.name.loc());
 
+    // The path is absolute, and must neither be resolved relative to the current namespace nor
+    // subjected to visibility checks.
     let (id, thing) = ctx
         .symtab
-        .lookup_thing(path, true)
+        .lookup_thing_in_namespace(path, &Path(vec![]), false)
         .map_err(|_| diag_anyhow!(module.name, "Failed to find {path} in symtab"))?;
 
     if !matches!(thing, Thing::Module(_, _)) {
-- 
2.43.0


From 1589bb09c0f974b749b81aab88239273d48446ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 19/43] fix: resolve the target of an alias in the scope of the
 alias

---
 spade-hir/src/symbol_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 92f1ea7..2fa4656 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1488,13 +1488,14 @@ impl SymbolTable {
                     }) => {
                         local_forbidden.insert(id.clone());
 
-                        // Alias target is itself a non-canonical path, it must be resolved first.
+                        // Alias target is itself a non-canonical path, it must be resolved first,
+                        // in the scope of the alias and not in that of its use.
                         let (alias_scope_offset, alias_working_path, new_deprecation_note) = self
                             .canonicalize_in_namespace(
                             alias_path,
                             in_namespace,
                             &local_forbidden,
-                            offset,
+                            scope_offset,
                             check_metadata,
                         )?;
 
-- 
2.43.0


From b2f95fdd785c1c699d544ce1e28cb2aa30a6e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 20/43] fix: end a block comment at its own */ whatever it
 contains

---
 spade-parser/src/lib.rs | 65 ++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5251a0f..1168f96 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -116,6 +116,34 @@ impl<'source> TokenSource<'source> {
             TokenSource::Slice([]) => 0..0,
         }
     }
+
+    /// Skips the text of a block comment, which may contain further block comments,
+    /// up to and including its end. Returns false if the comment is not terminated.
+    fn skip_block_comment(&mut self) -> bool {
+        let TokenSource::Lexer(lexer) = self else {
+            // Token streams do not contain comments
+            return true;
+        };
+
+        let text = lexer.remainder().as_bytes();
+        let mut depth = 1;
+        let mut pos = 0;
+        while depth > 0 && pos < text.len() {
+            match &text[pos..] {
+                [b'/', b'*', ..] => {
+                    depth += 1;
+                    pos += 2;
+                }
+                [b'*', b'/', ..] => {
+                    depth -= 1;
+                    pos += 2;
+                }
+                _ => pos += 1,
+            }
+        }
+        lexer.bump(pos);
+        depth == 0
+    }
 }
 
 // Clone for when you want to call a parse function but maybe discard the new parser state
@@ -3144,10 +3172,6 @@ impl<'a> Parser<'a> {
     }
 
     fn next_token(&mut self) -> Result<Token> {
-        self.next_token_helper(0)
-    }
-
-    fn next_token_helper(&mut self, block_comment_depth: usize) -> Result<Token> {
         let lex_dot_next = {
             let mut break_value: Option<std::result::Result<_, _>> = None;
             while let Some(next) = self.lex.next() {
@@ -3186,28 +3210,21 @@ impl<'a> Parser<'a> {
         }?;
 
         match out.kind {
-            TokenKind::BlockCommentStart => loop {
-                let next = match self.next_token_helper(block_comment_depth + 1) {
-                    Ok(next) => next,
-                    // We don't actually care about lexer errors inside block comments,
-                    // so let's just continue.
-                    Err(_) => continue,
-                };
-                match next.kind {
-                    TokenKind::BlockCommentEnd => {
-                        if block_comment_depth == 0 {
-                            self.comments.push(Comment::Block(out, next));
-                        }
-                        break self.next_token_helper(block_comment_depth);
-                    }
-                    TokenKind::Eof => {
-                        break Err(Diagnostic::error(next, "Unterminated block comment")
+            TokenKind::BlockCommentStart => {
+                if self.lex.skip_block_comment() {
+                    let end = self.lex.span().end;
+                    let close =
+                        Token::new(TokenKind::BlockCommentEnd, end - 2..end, self.file_id());
+                    self.comments.push(Comment::Block(out, close));
+                    self.next_token()
+                } else {
+                    Err(
+                        Diagnostic::error(self.next_token()?, "Unterminated block comment")
                             .primary_label("Expected */")
-                            .secondary_label(out, "to close this block comment"));
-                    }
-                    _ => {}
+                            .secondary_label(out, "to close this block comment"),
+                    )
                 }
-            },
+            }
             _ => Ok(out),
         }
     }
-- 
2.43.0


From a43bc41b58e308fc971a00e0aa3ddf1d04efa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 21/43] fix: accept every decimal digit in the size of an octal
 literal

---
 spade-ast/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-ast/src/token.rs b/spade-ast/src/token.rs
index 3a6e9c1..5f70ebe 100644
--- a/spade-ast/src/token.rs
+++ b/spade-ast/src/token.rs
@@ -57,7 +57,7 @@ pub enum TokenKind {
         parse_int(&lex.slice()[2..], 16)
     })]
     HexInteger((BigUint, LiteralKind)),
-    #[regex(r"0o[0-7][0-7_]*([uUiI][0-7]*)?", |lex| {
+    #[regex(r"0o[0-7][0-7_]*([uUiI][0-9]*)?", |lex| {
         parse_int(&lex.slice()[2..], 8)
     })]
     OctInteger((BigUint, LiteralKind)),
-- 
2.43.0


From c90152d727aef365427f6e41e50e0ef8289692b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 22/43] fix: size the backward direction of a range index by
 the backward size of its elements

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 0bd5746..dcb501a 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -855,7 +855,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From 61983300a305bb6f91a36aec392f02894ec52c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 23/43] fix: do not treat array elements outside an indexed
 range as used in the linear check

---
 .../src/linear_check/linear_state.rs          | 31 +++++++++++++++++++
 spade-hir-lowering/src/linear_check/mod.rs    | 23 ++++++++++----
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 379bac6..ff41c46 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -684,6 +684,37 @@ impl LinearState {
         self.consume_id(expr.map_ref(|e| e.id))
     }
 
+    /// Consumes the elements `start..end` of the array `expr`, or everything after `start` if
+    /// there is no end.
+    pub fn consume_array_range(
+        &mut self,
+        expr: &Loc<Expression>,
+        start: usize,
+        end: Option<usize>,
+    ) -> crate::error::Result<()> {
+        let id = expr.map_ref(|e| e.id);
+        let reference = ItemReference::Anonymous(id.inner);
+        let tree = self.trees.get(&reference).ok_or_else(|| {
+            Diagnostic::bug(&id, format!("Failed to get linear tree for {reference}"))
+        })?;
+
+        if let LinearTreeKind::Array(members) = &tree.borrow().kind {
+            let count = end.unwrap_or(members.len()).saturating_sub(start);
+            for member in members.iter().skip(start).take(count) {
+                member
+                    .borrow_mut()
+                    .try_consume(id.loc())
+                    .map_err(|(_witness, previous_use)| {
+                        Diagnostic::error(&id, "Use of consumed resource")
+                            .primary_label("Use of consumed resource")
+                            .secondary_label(previous_use, "Previously used here")
+                    })?;
+            }
+            return Ok(());
+        }
+        self.consume_id(id)
+    }
+
     pub fn consume_id(&mut self, id: Loc<ExprID>) -> crate::error::Result<()> {
         // NOTE: This is fairly inefficient at the moment. It might be better to try
         // and use something like a multi-map for several references to the same tree
diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 6cec91d..f0067b3 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -8,12 +8,13 @@ use spade_common::{
 use spade_diagnostics::diagnostic::Subdiagnostic;
 use spade_diagnostics::{Diagnostic, diag_bail};
 use spade_hir::{
-    ArgumentList, Binding, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
+    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
     Statement, TypeList,
     expression::{NamedArgument, UnaryOperator},
     symbol_table::SymbolTable,
 };
 use spade_typeinference::TypeState;
+use spade_types::ConcreteType;
 
 use self::linear_state::{LinearState, is_linear};
 use crate::error::Result;
@@ -283,13 +284,23 @@ fn visit_expression(
         }
         spade_hir::ExprKind::RangeIndex {
             target,
-            start: _,
-            end: _,
+            start,
+            end,
         } => {
             visit_expression(target, linear_state, ctx)?;
-            // We don't track individual elements of arrays, so we'll have to consume the
-            // whole thing here
-            linear_state.consume_expression(target)?;
+            // Only the elements which end up in the result are consumed, the rest of
+            // the array must still be used
+            let bound = |b: &Option<Loc<ConstGenericWithId>>| match b {
+                Some(b) => match ctx.type_state.concrete_type_of(b, ctx.symtab, ctx.types) {
+                    Ok(ConcreteType::Integer(val)) => Ok(val.to_usize()),
+                    Ok(other) => diag_bail!(b, "Inferred {other} for type level integer"),
+                    Err(e) => Err(e),
+                },
+                None => Ok(None),
+            };
+            let start = bound(start)?;
+            let end = bound(end)?;
+            linear_state.consume_array_range(target, start.unwrap_or(0), end)?;
         }
         spade_hir::ExprKind::TupleIndex(base, idx) => {
             visit_expression(base, linear_state, ctx)?;
-- 
2.43.0


From 67e8baf99284106c7aface1af7d81a0b507f9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 24/43] fix: check the uses of linear values in assert
 statements

---
 spade-hir-lowering/src/linear_check/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index f0067b3..12552ed 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -137,7 +137,9 @@ pub fn visit_statement(
             None => {}
         },
         Statement::Label(_) => {}
-        Statement::Assert(_) => {}
+        Statement::Assert(expr) => {
+            visit_expression(expr, linear_state, ctx)?;
+        }
         Statement::Set { target, value } => {
             visit_expression(target, linear_state, ctx)?;
             visit_expression(value, linear_state, ctx)?;
-- 
2.43.0


From 559bed825148ef4ca8c99ecca5b0456361172b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 25/43] fix: consume linear values which are cast

---
 spade-hir-lowering/src/linear_check/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 12552ed..67d4ec0 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -314,6 +314,7 @@ fn visit_expression(
         }
         spade_hir::ExprKind::TypeCast(base, _) => {
             visit_expression(base, linear_state, ctx)?;
+            linear_state.consume_expression(base)?;
         }
         spade_hir::ExprKind::BinaryOperator(lhs, _, rhs) => {
             visit_expression(lhs, linear_state, ctx)?;
-- 
2.43.0


From 634277dbe2416ef56b7ccf88a8e70bc74bac9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 26/43] fix: reject matches on and to values with inverted
 wires

---
 spade-hir-lowering/src/linear_check/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 67d4ec0..945e1a8 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -333,6 +333,19 @@ fn visit_expression(
         }
         spade_hir::ExprKind::Match(cond, variants) => {
             visit_expression(cond, linear_state, ctx)?;
+            // The patterns would give new names to resources which the scrutinee still owns, and
+            // resources in the result can not be connected to one of several branches.
+            for (part, what) in [
+                (cond.as_ref(), "Values with inverted wires (`inv`) cannot be matched on"),
+                (expr, "Match expressions cannot produce values with inverted wires (`inv`)"),
+            ] {
+                let ty = ctx.type_state.concrete_type_of(part, ctx.symtab, ctx.types);
+                if ty.is_ok_and(|ty| is_linear(&ty)) {
+                    return Err(
+                        Diagnostic::error(part, what).primary_label("This has an inverted wire")
+                    );
+                }
+            }
             for (pat, if_cond, expr) in variants {
                 linear_state.push_pattern(pat, ctx)?;
                 if let Some(if_cond) = if_cond {
-- 
2.43.0


From a0956ea482293352e02037b60adf49a054e86ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 27/43] fix: report constant indices outside of an array with
 inverted wires

---
 spade-hir-lowering/src/linear_check/mod.rs | 41 +++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 945e1a8..efccdb5 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -8,8 +8,8 @@ use spade_common::{
 use spade_diagnostics::diagnostic::Subdiagnostic;
 use spade_diagnostics::{Diagnostic, diag_bail};
 use spade_hir::{
-    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
-    Statement, TypeList,
+    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra,
+    Register, Statement, TypeList,
     expression::{NamedArgument, UnaryOperator},
     symbol_table::SymbolTable,
 };
@@ -246,10 +246,10 @@ fn visit_expression(
             visit_expression(target, linear_state, ctx)?;
             visit_expression(idx_expr, linear_state, ctx)?;
 
-            if is_linear(
-                &ctx.type_state
-                    .concrete_type_of(target, ctx.symtab, ctx.types)?,
-            ) {
+            let target_type = ctx
+                .type_state
+                .concrete_type_of(target, ctx.symtab, ctx.types)?;
+            if is_linear(&target_type) {
                 let idx = match &idx_expr.kind {
                     ExprKind::IntLiteral(value, _) => value,
                     _ => {
@@ -269,6 +269,19 @@ fn visit_expression(
                     )
                 })?;
 
+                if let ConcreteType::Array { inner: _, size } = &target_type
+                    && *size <= idx.into()
+                {
+                    return Err(
+                        Diagnostic::error(idx_expr.loc(), "Array index out of bounds")
+                            .primary_label("Index out of bounds")
+                            .secondary_label(
+                                target.loc(),
+                                format!("This array has {size} elements"),
+                            ),
+                    );
+                }
+
                 // If the array has mutable wires, we need to guarantee statically that they are
                 // used exactly once. To do that, we need to ensure that the array is indexed by a
                 // statically known index. However, this check is only required if the array actually
@@ -284,11 +297,7 @@ fn visit_expression(
 
             linear_state.consume_expression(idx_expr)?;
         }
-        spade_hir::ExprKind::RangeIndex {
-            target,
-            start,
-            end,
-        } => {
+        spade_hir::ExprKind::RangeIndex { target, start, end } => {
             visit_expression(target, linear_state, ctx)?;
             // Only the elements which end up in the result are consumed, the rest of
             // the array must still be used
@@ -336,8 +345,14 @@ fn visit_expression(
             // The patterns would give new names to resources which the scrutinee still owns, and
             // resources in the result can not be connected to one of several branches.
             for (part, what) in [
-                (cond.as_ref(), "Values with inverted wires (`inv`) cannot be matched on"),
-                (expr, "Match expressions cannot produce values with inverted wires (`inv`)"),
+                (
+                    cond.as_ref(),
+                    "Values with inverted wires (`inv`) cannot be matched on",
+                ),
+                (
+                    expr,
+                    "Match expressions cannot produce values with inverted wires (`inv`)",
+                ),
             ] {
                 let ty = ctx.type_state.concrete_type_of(part, ctx.symtab, ctx.types);
                 if ty.is_ok_and(|ty| is_linear(&ty)) {
-- 
2.43.0


From 40d0988f16d5a83c0ffca9ee5be08722a739897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 28/43] fix: reject values with inverted wires which are bound
 by a name and a pattern

---
 .../src/linear_check/linear_state.rs               | 14 ++++++++++++++
 spade-hir-lowering/src/linear_check/mod.rs         |  8 ++++++++
 2 files changed, 22 insertions(+)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index ff41c46..68f6d25 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -414,12 +414,16 @@ pub struct LinearState {
     /// The trees visible via references, either names or expression IDs. Multiple
     /// references can refer to the same tree
     trees: HashMap<ItemReference, Rc<RefCell<LinearTree>>>,
+    /// Names bound by `name @ pattern` to something which has to be used. Neither side can be
+    /// used, so it is never used.
+    bound_twice: Vec<Loc<NameID>>,
 }
 
 impl LinearState {
     pub fn new() -> Self {
         Self {
             trees: HashMap::default(),
+            bound_twice: vec![],
         }
     }
 
@@ -454,6 +458,11 @@ impl LinearState {
         Ok(())
     }
 
+    /// Returns a name bound by `name @ pattern` to a value with inverted wires.
+    pub fn bound_twice(&self) -> Option<&Loc<NameID>> {
+        self.bound_twice.first()
+    }
+
     pub fn push_type(&mut self, reference: Loc<ItemReference>, ty: &ConcreteType) {
         let tree = Rc::new(RefCell::new(build_linear_tree(reference.loc(), ty)));
 
@@ -625,6 +634,11 @@ impl LinearState {
                     // linear checker works, feel free to improve this.
                     self.consume_pattern(pat)?;
                     self.consume_id(id_loc)?;
+
+                    let ty = ctx.type_state.concrete_type_of(name, ctx.symtab, ctx.types);
+                    if ty.is_ok_and(|ty| is_linear(&ty)) {
+                        self.bound_twice.push(name.clone());
+                    }
                 }
             }
             PatternKind::Tuple(inner) => {
diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index efccdb5..6261bd1 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -71,6 +71,14 @@ pub fn check_linear_types(
             ))
     })?;
 
+    if let Some(name) = linear_state.bound_twice() {
+        return Err(Diagnostic::error(
+            name,
+            format!("{name} has an inverted wire (`inv`) which is also bound by a pattern"),
+        )
+        .primary_label("The inverted wire cannot be used"));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 720b9bdc9367a7fa9d00c0dea74e16eada0a8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 29/43] fix: do not leave units with warnings out of the output

---
 spade-compiler/src/lib.rs                  | 8 +++++++-
 spade-hir-lowering/src/monomorphisation.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/spade-compiler/src/lib.rs b/spade-compiler/src/lib.rs
index 20a2f5e..84e7006 100644
--- a/spade-compiler/src/lib.rs
+++ b/spade-compiler/src/lib.rs
@@ -13,6 +13,7 @@ use spade_codespan_reporting::term::termcolor::Buffer;
 use spade_common::location_info::{Loc, WithLocation};
 pub use spade_common::namespace::ModuleNamespace;
 use spade_diagnostics::diag_list::{DiagList, ResultExt};
+use spade_diagnostics::diagnostic::DiagnosticLevel;
 use spade_hir::expression::Safety;
 use spade_hir_lowering::inline::do_inlining;
 use spade_mir::codegen::{Codegenable, cocotb_code, prepare_codegen};
@@ -344,7 +345,12 @@ pub fn run_local_compilation_steps(
                         &u.name,
                     );
 
-                    let failures = type_state.owned.diags.errors.len() != 0;
+                    let failures = type_state
+                        .owned
+                        .diags
+                        .errors
+                        .iter()
+                        .any(|diag| diag.level != DiagnosticLevel::Warning);
                     errors.drain_diag_list(&mut type_state.owned.diags);
 
                     // Later stages will fail if we don't have a a complete type state,
diff --git a/spade-hir-lowering/src/monomorphisation.rs b/spade-hir-lowering/src/monomorphisation.rs
index 3f4d4f1..294f4e0 100644
--- a/spade-hir-lowering/src/monomorphisation.rs
+++ b/spade-hir-lowering/src/monomorphisation.rs
@@ -9,7 +9,7 @@ use rustc_hash::FxHashMap as HashMap;
 use spade_common::location_info::Loc;
 use spade_common::{id_tracker::ExprIdTracker, location_info::WithLocation, name::NameID};
 use spade_diagnostics::codespan::Span;
-use spade_diagnostics::diagnostic::{Message, Subdiagnostic};
+use spade_diagnostics::diagnostic::{DiagnosticLevel, Message, Subdiagnostic};
 use spade_diagnostics::{Diagnostic, diag_anyhow};
 use spade_hir::Unit;
 use spade_hir::pretty_print::PrettyPrint;
@@ -444,7 +444,11 @@ fn monomorphize_item(
 
                 let mut errors = vec![];
                 for diag in type_state.owned.diags.drain() {
-                    errors.push(state.add_mono_traceback(diag, &item));
+                    // Warnings do not prevent the unit from being generated, and were already
+                    // reported when the generic unit was checked
+                    if diag.level != DiagnosticLevel::Warning {
+                        errors.push(state.add_mono_traceback(diag, &item));
+                    }
                 }
 
                 match revisit_result {
-- 
2.43.0


From 5125dd01309403b2a4d40fa035fc8a6b2b9a926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 30/43] fix: report missing mod declarations in the order of
 the files

---
 spade-ast-lowering/src/global_symbols.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spade-ast-lowering/src/global_symbols.rs b/spade-ast-lowering/src/global_symbols.rs
index 166e4f8..83aaad7 100644
--- a/spade-ast-lowering/src/global_symbols.rs
+++ b/spade-ast-lowering/src/global_symbols.rs
@@ -1,3 +1,4 @@
+use itertools::Itertools;
 use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 
 use hir::{
@@ -179,6 +180,12 @@ pub fn report_missing_mod_declarations(
     let missing_namespace_set = missing_namespace_set
         .iter()
         .filter(|ns| !ns.0.0.is_empty() && !(ns.1.ends_with("main.spade")))
+        // The order in the hash map differs between runs
+        .sorted_by_key(|ns| {
+            module_asts
+                .iter()
+                .position(|(module, _)| &module.namespace == ns.0)
+        })
         .collect::<Vec<_>>();
 
     missing_namespace_set
-- 
2.43.0


From 63a2bbece9b165a16f5d766059bc15a39fe6fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 31/43] fix: report undefined declarations in the order of the
 source

---
 spade-hir/src/symbol_table.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 2fa4656..006e2a7 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -958,6 +958,7 @@ impl SymbolTable {
     }
 
     pub fn get_undefined_declarations(&self) -> Vec<(Loc<Identifier>, DeclarationState)> {
+        // The declarations are in a hash map, report them in the order of the source
         self.declarations
             .last()
             .unwrap()
@@ -967,6 +968,7 @@ impl SymbolTable {
                 DeclarationState::Undecleared(_) => Some((ident.clone(), state.clone())),
                 DeclarationState::Defined(_) => None,
             })
+            .sorted_by_key(|(ident, _)| (ident.file_id, ident.span))
             .collect()
     }
 
-- 
2.43.0


From 1a59e5dff66cd26fed3ad000a6e57fe19f7afe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 32/43] fix: report duplicate methods in the order of the
 source

---
 spade-ast-lowering/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index a0c2dec..d44b993 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -1463,5 +1463,7 @@ pub fn ensure_unique_anonymous_traits(item_list: &mut hir::ItemList) -> Vec<Diag
             });
         }
     }
+    // The methods are in hash maps, report them in the order of the source
+    diags.sort_by_key(|diag| (diag.labels.span.1, diag.labels.span.0));
     diags
 }
-- 
2.43.0


From 10ef5be890aa7313ae6321e4d05233f56284b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 33/43] fix: report unused and reused inverted wires in the
 same order every time

---
 .../src/linear_check/linear_state.rs          | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 68f6d25..f83d6a2 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -1,5 +1,6 @@
 use std::{cell::RefCell, cmp::Ordering, rc::Rc};
 
+use itertools::Itertools;
 use num::ToPrimitive;
 use rustc_hash::FxHashMap as HashMap;
 use spade_diagnostics::Diagnostic;
@@ -192,7 +193,7 @@ impl LinearTree {
                 UsageInfo::Consumed(prev) => Err((MutWireWitness::This, *prev)),
             },
             LinearTreeKind::Struct(members) => {
-                members.iter().try_for_each(|(ident, sub)| {
+                sorted_fields(members).try_for_each(|(ident, sub)| {
                     sub.borrow_mut().try_consume(loc).map_err(|(witness, loc)| {
                         (MutWireWitness::Field(ident.clone(), Box::new(witness)), loc)
                     })
@@ -293,7 +294,7 @@ impl LinearTree {
                 UsageInfo::Consumed(_) => Ok(()),
             },
             LinearTreeKind::Struct(fields) => {
-                for (name, sub) in fields {
+                for (name, sub) in sorted_fields(fields) {
                     match sub.borrow().check_unused() {
                         Ok(_) => {}
                         Err(witness) => {
@@ -410,6 +411,13 @@ impl std::fmt::Display for ItemReference {
     }
 }
 
+/// The fields of a struct in an order which does not depend on the hashes of the names
+fn sorted_fields(
+    fields: &HashMap<Identifier, Rc<RefCell<LinearTree>>>,
+) -> impl Iterator<Item = (&Identifier, &Rc<RefCell<LinearTree>>)> {
+    fields.iter().sorted_by_key(|(name, _)| name.as_str())
+}
+
 pub struct LinearState {
     /// The trees visible via references, either names or expression IDs. Multiple
     /// references can refer to the same tree
@@ -433,6 +441,8 @@ impl LinearState {
     /// The item reference is chosen to be as useful to the user as possible. If there
     /// is a name alias for this item, it is used, if not, an expression reference is used
     pub fn check_unused(&self) -> Result<(), (Loc<ItemReference>, MutWireWitness)> {
+        // The trees are in a hash map, report the unused item which is first in the source
+        let mut first: Option<(Loc<ItemReference>, MutWireWitness)> = None;
         for tree in self.trees.values() {
             let tree = tree.borrow();
             match tree.check_unused() {
@@ -451,11 +461,17 @@ impl LinearState {
                     // NOTE: Safe unwrap. Since we accessed this tree from `self.trees` it was
                     // in the hash map and must have at least one alias
                     let best_alias = alias_priority.first().unwrap();
-                    return Err((best_alias.clone(), witness));
+                    let position = |l: &Loc<ItemReference>| (l.file_id, l.span);
+                    if first
+                        .as_ref()
+                        .is_none_or(|(prev, _)| position(best_alias) < position(prev))
+                    {
+                        first = Some((best_alias.clone(), witness));
+                    }
                 }
             }
         }
-        Ok(())
+        first.map_or(Ok(()), Err)
     }
 
     /// Returns a name bound by `name @ pattern` to a value with inverted wires.
-- 
2.43.0


From 338a036ea95df66ec800b6a6c57935b632ac9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 34/43] fix: report no text for a wave value longer than its
 type instead of panicking

---
 vcd-translate/src/translation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vcd-translate/src/translation.rs b/vcd-translate/src/translation.rs
index fecbd18..4dabd24 100644
--- a/vcd-translate/src/translation.rs
+++ b/vcd-translate/src/translation.rs
@@ -140,10 +140,6 @@ fn translate_unsigned_int(value: &[Value]) -> MaybeValue<BigUint> {
 pub fn inner_translate_value(result: &mut String, in_value: &[Value], t: &ConcreteType) {
     let value_len = in_value.len();
     let type_size = t.to_mir_type().size();
-    let missing_values = type_size
-        .to_usize()
-        .unwrap_or_else(|| panic!("Value is wider than {} bits", usize::MAX))
-        - value_len;
 
     // FIXME: This is a temporary hack to work around
     // lifeguard spade#214
@@ -155,6 +151,11 @@ pub fn inner_translate_value(result: &mut String, in_value: &[Value], t: &Concre
         return;
     }
 
+    let missing_values = type_size
+        .to_usize()
+        .unwrap_or_else(|| panic!("Value is wider than {} bits", usize::MAX))
+        - value_len;
+
     // Extend according to verilog specification section 18.2.2
     let extend_value = match in_value[0] {
         Value::V0 => Value::V0,
-- 
2.43.0


From 96fe5fd457768d76776fc39c6f8748711d7388a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 35/43] fix: evaluate sums and differences of constants with
 unsigned types

---
 spade-mir/src/eval.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..7ccdd3e 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -238,10 +238,21 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         size: ty.size(),
                         val: name_vals[&ops[0]].assume_int() - name_vals[&ops[1]].assume_int(),
                     },
-                    Operator::UnsignedSub => Value::UInt {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() - name_vals[&ops[1]].assume_uint(),
-                    },
+                    Operator::UnsignedSub => {
+                        let lhs = name_vals[&ops[0]].assume_uint();
+                        let rhs = name_vals[&ops[1]].assume_uint();
+                        let size = ty.size();
+                        // Differences less than 0 wrap around
+                        let val = if lhs >= rhs {
+                            lhs - rhs
+                        } else {
+                            let size_usize = size.to_usize().unwrap_or_else(|| {
+                                panic!("Variable size {size} is too large to fit a 'usize'")
+                            });
+                            (BigUint::from(1u32) << size_usize) + lhs - rhs
+                        };
+                        Value::UInt { size, val }
+                    }
                     Operator::Mul => todo!(),
                     Operator::UnsignedMul => todo!(),
                     Operator::Div => todo!(),
@@ -347,9 +358,15 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
             Statement::Register(_) => panic!("trying to evaluate a register"),
             Statement::Constant(name, ty, val) => {
                 let val = match val {
-                    crate::ConstantValue::Int(i) => Value::Int {
-                        size: ty.size(),
-                        val: i.clone(),
+                    crate::ConstantValue::Int(i) => match (ty, i.to_biguint()) {
+                        (Type::UInt(size), Some(val)) => Value::UInt {
+                            size: size.clone(),
+                            val,
+                        },
+                        _ => Value::Int {
+                            size: ty.size(),
+                            val: i.clone(),
+                        },
                     },
                     crate::ConstantValue::Bool(v) => Value::Bit(*v),
                     crate::ConstantValue::String(_) => todo!(),
-- 
2.43.0


From d9d9acb66cf72c8aa9439394badc50cca560adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 36/43] fix: keep a test bench session usable after an error,
 reject trailing tokens in expressions

---
 spade-simulation-ext/src/lib.rs | 144 ++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 63 deletions(-)

diff --git a/spade-simulation-ext/src/lib.rs b/spade-simulation-ext/src/lib.rs
index 6dee545..2fac97e 100644
--- a/spade-simulation-ext/src/lib.rs
+++ b/spade-simulation-ext/src/lib.rs
@@ -443,6 +443,11 @@ impl Spade {
             .unwrap_or_default();
 
         if !has_field {
+            symtab.close_scope();
+            self.owned = Some(OwnedState {
+                symtab: symtab.freeze(),
+                ..owned_state
+            });
             return Err(Error::NoSuchField {
                 ty: format!("{ty}"),
                 field: next.to_string(),
@@ -834,6 +839,9 @@ impl Spade {
             &code,
             &mut self.diag_handler,
         )?;
+        parser
+            .expect_eof("end of expression")
+            .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
 
         let OwnedState {
             symtab,
@@ -882,75 +890,85 @@ impl Spade {
             diags,
             safety: _,
         } = ast_ctx;
-        self.handle_diags(&mut diags.lock().unwrap())?;
-
-        let code = code.read().unwrap();
         let symtab = symtab.freeze();
 
-        let type_ctx = spade_typeinference::Context {
-            symtab: symtab.symtab(),
-            items: &item_list,
-            trait_impls: &trait_impls,
-        };
-        let generic_list = self
-            .type_state
-            .create_empty_generic_list(GenericListSource::Anonymous);
+        // NOTE: A `?` in this closure must neither skip giving the owned state back, nor leave
+        // anything about the rejected expression in the type state
+        let types_before = self.type_state.owned.clone();
+        let mir = (|| {
+            self.handle_diags(&mut diags.lock().unwrap())?;
 
-        self.type_state
-            .visit_expression(&hir, &type_ctx, &generic_list);
+            let code = code.read().unwrap();
 
-        let mut diags = self.type_state.owned.diags.drain_to_new();
-        self.handle_diags(&mut diags)?;
+            let type_ctx = spade_typeinference::Context {
+                symtab: symtab.symtab(),
+                items: &item_list,
+                trait_impls: &trait_impls,
+            };
+            let generic_list = self
+                .type_state
+                .create_empty_generic_list(GenericListSource::Anonymous);
 
-        let ty_id = ty.insert(&mut self.type_state);
-        self.type_state
-            .unify_expression_generic_error(
-                &hir,
-                &ty_id,
-                &spade_typeinference::Context {
-                    symtab: symtab.symtab(),
-                    items: &item_list,
-                    trait_impls: &trait_impls,
-                },
-            )
-            .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
-        self.type_state
-            .check_requirements(
-                true,
-                &spade_typeinference::Context {
-                    items: &item_list,
-                    symtab: symtab.symtab(),
-                    trait_impls: &trait_impls,
-                },
-            )
-            .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
+            self.type_state
+                .visit_expression(&hir, &type_ctx, &generic_list);
 
-        let type_ctx = &spade_typeinference::Context {
-            symtab: symtab.symtab(),
-            items: &item_list,
-            trait_impls: &trait_impls,
-        };
-        let mut hir_ctx = spade_hir_lowering::Context {
-            symtab: &symtab,
-            idtracker: &mut idtracker,
-            types: &mut self.type_state,
-            type_ctx,
-            item_list: &item_list,
-            unit_generic_list: &None,
-            // NOTE: This requires changes if we end up wanting to write tests
-            // for generic units
-            mono_state: &MonoState::new(),
-            subs: &mut Substitutions::new(),
-            pipeline_context: &mut MaybePipelineContext::NotPipeline,
-            self_mono_item: None,
-            trait_impls: &trait_impls,
-        };
+            let mut diags = self.type_state.owned.diags.drain_to_new();
+            self.handle_diags(&mut diags)?;
 
-        let mir = expr_to_mir(hir, &mut hir_ctx).report_and_convert(
-            &mut self.error_buffer,
-            &code,
-            &mut self.diag_handler,
-        )?;
+            let ty_id = ty.insert(&mut self.type_state);
+            self.type_state
+                .unify_expression_generic_error(
+                    &hir,
+                    &ty_id,
+                    &spade_typeinference::Context {
+                        symtab: symtab.symtab(),
+                        items: &item_list,
+                        trait_impls: &trait_impls,
+                    },
+                )
+                .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
+            self.type_state
+                .check_requirements(
+                    true,
+                    &spade_typeinference::Context {
+                        items: &item_list,
+                        symtab: symtab.symtab(),
+                        trait_impls: &trait_impls,
+                    },
+                )
+                .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
+
+            let type_ctx = &spade_typeinference::Context {
+                symtab: symtab.symtab(),
+                items: &item_list,
+                trait_impls: &trait_impls,
+            };
+            let mut hir_ctx = spade_hir_lowering::Context {
+                symtab: &symtab,
+                idtracker: &mut idtracker,
+                types: &mut self.type_state,
+                type_ctx,
+                item_list: &item_list,
+                unit_generic_list: &None,
+                // NOTE: This requires changes if we end up wanting to write tests
+                // for generic units
+                mono_state: &MonoState::new(),
+                subs: &mut Substitutions::new(),
+                pipeline_context: &mut MaybePipelineContext::NotPipeline,
+                self_mono_item: None,
+                trait_impls: &trait_impls,
+            };
+
+            expr_to_mir(hir, &mut hir_ctx).report_and_convert(
+                &mut self.error_buffer,
+                &code,
+                &mut self.diag_handler,
+            )
+        })();
+
+        if mir.is_err() {
+            self.type_state.owned = types_before;
+        }
 
         self.return_owned(OwnedState {
             symtab,
@@ -962,7 +980,7 @@ impl Spade {
             generic_idtracker,
         });
 
-        let result = eval_statements(&mir.to_vec_no_source_map());
+        let result = eval_statements(&mir?.to_vec_no_source_map());
         self.compilation_cache.insert(cache_key, result.clone());
         Ok(result)
     }
-- 
2.43.0


From 250382c4a8617b0dd1d487a5c60be6ee2efa2279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 37/43] fix: do not index into single bit values when sign
 extending

---
 spade-mir/src/codegen/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index dcb501a..fe4a1b5 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -367,18 +367,19 @@ fn forward_expression_code(
             let self_size = self_type.size();
             if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
+                // Single bit values are declared as scalars, which Verilog does not allow
+                // indexing into
+                let sign_bit = if operand_size == 1u32.to_biguint() {
+                    op_names[0].clone()
+                } else {
+                    format!("{}[{}]", op_names[0], operand_size - 1u32.to_biguint())
+                };
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
-                    Some(1) => format!(
-                        "{{{}[{}], {}}}",
-                        op_names[0],
-                        operand_size - 1u32.to_biguint(),
-                        op_names[0]
-                    ),
+                    Some(1) => format!("{{{sign_bit}, {}}}", op_names[0]),
                     _ => format!(
-                        "#[#[ {extra_bits} #[ {op}[{last_index}] #]#], {op}#]",
+                        "#[#[ {extra_bits} #[ {sign_bit} #]#], {op}#]",
                         op = op_names[0],
-                        last_index = operand_size - 1u32.to_biguint(),
                     )
                     // For readability with the huge amount of braces that both
                     // rust and verilog want here, we'll insert them at the end
-- 
2.43.0


From 20fcc3afaf51f2cbe167cc6726c6dd9bb80d69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 38/43] fix: select only the bits of the payload when gating
 registers of enums

---
 spade-mir/src/codegen/mod.rs | 3 ++-
 spade-mir/src/lib.rs         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index fe4a1b5..2226586 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -520,7 +520,8 @@ fn forward_expression_code(
             if end_exclusive - start == 1u32.to_biguint() {
                 format!("{}[{start}]", op_names[0])
             } else {
-                format!("{}[{end_exclusive}:{start}]", op_names[0])
+                let end = end_exclusive - 1u32.to_biguint();
+                format!("{}[{end}:{start}]", op_names[0])
             }
         }
         Operator::DeclClockedMemory { initial } => {
diff --git a/spade-mir/src/lib.rs b/spade-mir/src/lib.rs
index 65ef77e..5239ae5 100644
--- a/spade-mir/src/lib.rs
+++ b/spade-mir/src/lib.rs
@@ -239,7 +239,7 @@ pub enum Operator {
         start: BigUint,
         end_exclusive: BigUint,
     },
-    /// Compiles to verilog [end_exclusive:start]. Supports single bit indexing, (when
+    /// Compiles to verilog [end_exclusive-1:start]. Supports single bit indexing, (when
     /// end_exclusive == start + 1, in which case it compiles to [start]
     RangeIndexBits {
         start: BigUint,
-- 
2.43.0


From 52caf7821c25cdb4d3fbbe1cb9d5a6025556663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 39/43] fix: escape port and unit names which are not plain
 Verilog identifiers

---
 spade-mir/src/codegen/mod.rs  | 10 +++++-----
 spade-mir/src/codegen/util.rs |  9 +++++++++
 spade-mir/src/unit_name.rs    |  4 +++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 2226586..26e7b10 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -23,7 +23,7 @@ use crate::{
 
 pub mod util;
 
-pub use util::{TupleIndex, escape_path, mangle_entity, mangle_input, mangle_output};
+pub use util::{TupleIndex, escape_path, escape_name, mangle_entity, mangle_input, mangle_output};
 
 struct Context<'a> {
     types: &'a MirTypeList,
@@ -982,14 +982,14 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                             if ty.size() != BigUint::zero()  {
                                 result.push(format!(
                                     ".{}({})",
-                                    mangle_input(no_mangle, name),
+                                    escape_name(&mangle_input(no_mangle, name)),
                                     port.var_name()
                                 ))
                             }
                             if ty.backward_size() != BigUint::zero()  {
                                 result.push(format!(
                                     ".{}({})",
-                                    mangle_output(no_mangle, name),
+                                    escape_name(&mangle_output(no_mangle, name)),
                                     port.backward_var_name()
                                 ))
                             }
@@ -1361,7 +1361,7 @@ pub fn entity_code(
 
             let size = ty.size();
             let (input_head, input_code) = if size != BigUint::zero() {
-                let name = mangle_input(no_mangle, name);
+                let name = escape_name(&mangle_input(no_mangle, name));
 
                 name_map.insert(&name, val_name.verilog_name_source_fwd());
 
@@ -1392,7 +1392,7 @@ pub fn entity_code(
 
             let backward_size = ty.backward_size();
             let (output_head, output_code) = if backward_size != BigUint::zero() {
-                let name = mangle_output(no_mangle, name);
+                let name = escape_name(&mangle_output(no_mangle, name));
                 name_map.insert(&name, val_name.verilog_name_source_back());
                 (
                     format!("output{} {}", size_spec(&backward_size), name),
diff --git a/spade-mir/src/codegen/util.rs b/spade-mir/src/codegen/util.rs
index 9201fe2..ef1400a 100644
--- a/spade-mir/src/codegen/util.rs
+++ b/spade-mir/src/codegen/util.rs
@@ -70,6 +70,15 @@ pub fn mangle_output(no_mangle: &Option<Loc<()>>, input: &str) -> String {
     }
 }
 
+/// Escapes names that contain characters which a plain verilog identifier cannot contain
+pub fn escape_name(name: &str) -> String {
+    if name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
+        name.to_string()
+    } else {
+        format!("\\{name} ")
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum TupleIndex {
     /// The indexee is a 1 bit scalar, so no indexing should be performed.
diff --git a/spade-mir/src/unit_name.rs b/spade-mir/src/unit_name.rs
index a48f1f0..ad541bf 100644
--- a/spade-mir/src/unit_name.rs
+++ b/spade-mir/src/unit_name.rs
@@ -5,6 +5,8 @@ use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use spade_common::name::{NameID, Path};
 
+use crate::codegen::util::escape_name;
+
 /// Mapping between instances and the module it instantiates
 /// Example:
 /// ```rust
@@ -140,7 +142,7 @@ impl UnitName {
     }
     pub fn as_verilog(&self) -> String {
         match &self.kind {
-            UnitNameKind::Unescaped(name) => name.clone(),
+            UnitNameKind::Unescaped(name) => escape_name(name),
             UnitNameKind::Escaped { name, path: _ } => format!("\\{name} "),
         }
     }
-- 
2.43.0


From 7959c6bfa9b05d02d01501b0a438e1bc208be304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 40/43] fix: do not index into single bit values when
 truncating

---
 spade-mir/src/codegen/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 26e7b10..d813cff 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -347,11 +347,17 @@ fn forward_expression_code(
             }.to_string()
         }
         Operator::Truncate => {
-            format!(
-                "{}[{}:0]",
-                op_names[0],
-                binding.ty.size() - 1u32.to_biguint()
-            )
+            let one = 1u32.to_biguint();
+            if binding.ty.size() == one && types[&ops[0]].size() == one {
+                // Single bit values are scalars which can not be indexed
+                op_names[0].to_string()
+            } else {
+                format!(
+                    "{}[{}:0]",
+                    op_names[0],
+                    binding.ty.size() - 1u32.to_biguint()
+                )
+            }
         }
         Operator::Concat => {
             format!(
-- 
2.43.0


From 1a0e7930c1e893651de9c4a02a87708883857c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 41/43] fix: emit no references to zero width operands
 (extensions, reductions, one element memories)

---
 spade-mir/src/codegen/mod.rs | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index d813cff..86a9c28 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -267,12 +267,20 @@ fn forward_expression_code(
     }
 
     macro_rules! unop {
-        ($verilog:expr) => {{
+        ($verilog:expr $(; zst => $on_zero:expr)?) => {{
             assert!(
                 binding.operands.len() == 1,
                 "expected 1 operands to binary operator"
             );
-            format!("{}{}", $verilog, op_names[0])
+            #[allow(unused_mut)]
+            let mut result = format!("{}{}", $verilog, op_names[0]);
+
+            $(
+                if types[&ops[0]].size() == BigUint::ZERO {
+                    result = $on_zero.to_string();
+                }
+            )?
+            result
         }};
     }
 
@@ -322,9 +330,9 @@ fn forward_expression_code(
         Operator::BitwiseXor => binop!("^"),
         Operator::USub => unop!("-"),
         Operator::Not => unop!("!"),
-        Operator::ReduceAnd => unop!("&"),
-        Operator::ReduceOr => unop!("|"),
-        Operator::ReduceXor => unop!("^"),
+        Operator::ReduceAnd => unop!("&"; zst => "1'b1"),
+        Operator::ReduceOr => unop!("|"; zst => "1'b0"),
+        Operator::ReduceXor => unop!("^"; zst => "1'b0"),
         Operator::DivPow2 => {
             // Split into 3 cases: if the division amount is 2^0, nothing should
             // be done. Must be handled as a special case of the rest of the computation
@@ -371,7 +379,9 @@ fn forward_expression_code(
         Operator::SignExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
                 // Single bit values are declared as scalars, which Verilog does not allow
                 // indexing into
@@ -400,7 +410,9 @@ fn forward_expression_code(
         Operator::ZeroExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - operand_size;
                 format!("{{{}'b0, {}}}", extra_bits, op_names[0])
             } else {
@@ -517,7 +529,12 @@ fn forward_expression_code(
             }
         }
         Operator::IndexMemory => {
-            format!("{}[{}]", op_names[0], op_names[1])
+            // The address of a memory with a single element has no bits
+            if types[&ops[1]].size() == BigUint::ZERO {
+                format!("{}[0]", op_names[0])
+            } else {
+                format!("{}[{}]", op_names[0], op_names[1])
+            }
         }
         Operator::RangeIndexBits {
             start,
@@ -570,7 +587,10 @@ fn forward_expression_code(
                         &full_port_width * (port + 1u32.to_biguint()) - 1u32.to_biguint();
 
                     let addr_start = &full_port_width * port + &inner_w;
-                    let addr = if *addr_w == 1u32.to_biguint() {
+                    let addr = if *addr_w == BigUint::ZERO {
+                        // The address of a memory with a single element has no bits
+                        "0".to_string()
+                    } else if *addr_w == 1u32.to_biguint() {
                         format!("{}[{}]", op_names[1], addr_start)
                     } else {
                         format!(
-- 
2.43.0


From 70d3bd6e240ed3801ec4c9578b270b2448b31fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 42/43] fix: report division by zero in type level expressions
 instead of crashing

---
 spade-typeinference/src/constraints.rs | 58 ++++++++++++++++++++++++--
 spade-typeinference/src/lib.rs         | 21 +++++++---
 2 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..da19317 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -1,4 +1,4 @@
-use num::{BigInt, Signed};
+use num::{BigInt, Signed, Zero};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     location_info::{Loc, WithLocation},
@@ -207,8 +207,15 @@ impl ConstraintExpr {
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
-            ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
-            ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
+            // Division by zero has no value, it is reported via `divides_by_zero`
+            ConstraintExpr::Div(lhs, rhs) => match rhs.evaluate(type_state) {
+                ConstraintExpr::Integer(r) if r.is_zero() => self.clone(),
+                _ => int_binop(lhs, rhs, &|l, r| l / r),
+            },
+            ConstraintExpr::Mod(lhs, rhs) => match rhs.evaluate(type_state) {
+                ConstraintExpr::Integer(r) if r.is_zero() => self.clone(),
+                _ => int_binop(lhs, rhs, &|l, r| l % r),
+            },
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
                 ConstraintExpr::Integer(val) => ConstraintExpr::Integer(-val),
                 _ => self.clone(),
@@ -299,6 +306,41 @@ impl ConstraintExpr {
         }
     }
 
+    /// Returns true if evaluating this expression requires a division by zero
+    fn divides_by_zero(&self, type_state: &TypeState) -> bool {
+        match self {
+            ConstraintExpr::Integer(_)
+            | ConstraintExpr::Bool(_)
+            | ConstraintExpr::String(_)
+            | ConstraintExpr::Var(_) => false,
+            ConstraintExpr::Div(lhs, rhs) | ConstraintExpr::Mod(lhs, rhs) => {
+                matches!(
+                    rhs.evaluate(type_state),
+                    ConstraintExpr::Integer(r) if r.is_zero()
+                ) || lhs.divides_by_zero(type_state)
+                    || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sum(lhs, rhs)
+            | ConstraintExpr::Difference(lhs, rhs)
+            | ConstraintExpr::Product(lhs, rhs)
+            | ConstraintExpr::Eq(lhs, rhs)
+            | ConstraintExpr::NotEq(lhs, rhs)
+            | ConstraintExpr::Lt(lhs, rhs)
+            | ConstraintExpr::Gt(lhs, rhs)
+            | ConstraintExpr::Le(lhs, rhs)
+            | ConstraintExpr::Ge(lhs, rhs)
+            | ConstraintExpr::LogicalAnd(lhs, rhs)
+            | ConstraintExpr::LogicalOr(lhs, rhs)
+            | ConstraintExpr::LogicalXor(lhs, rhs) => {
+                lhs.divides_by_zero(type_state) || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sub(inner)
+            | ConstraintExpr::LogicalNot(inner)
+            | ConstraintExpr::IntBitsToRepresent(inner)
+            | ConstraintExpr::UintBitsToRepresent(inner) => inner.divides_by_zero(type_state),
+        }
+    }
+
     pub fn with_context(
         self,
         replaces: &TypeVarID,
@@ -417,6 +459,16 @@ impl TypeConstraints {
         self.inner.push((lhs, rhs));
     }
 
+    /// Removes the constraints which can not be evaluated because they divide by zero, and
+    /// returns where they are
+    pub fn take_divisions_by_zero(&mut self, type_state: &TypeState) -> Vec<Loc<()>> {
+        let (failing, remaining): (Vec<_>, Vec<_>) = std::mem::take(&mut self.inner)
+            .into_iter()
+            .partition(|(_, rhs)| rhs.constraint.divides_by_zero(type_state));
+        self.inner = remaining;
+        failing.into_iter().map(|(_, rhs)| rhs.loc()).collect()
+    }
+
     /// Calls `evaluate` on all constraints. If any constraints are now `T = Integer(val)`,
     /// those updated values are returned. Such constraints are then removed
     pub fn update_type_level_value_constraints(
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index d8d6981..2a4e7f0 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -3367,12 +3367,23 @@ impl TypeState {
         loop {
             trace!("Updating constraints");
             // NOTE: Cloning here is kind of ugly
+            let mut constraints = self.owned.constraints.clone();
+            // Trial unifications are undone, so they must not report anything
+            let divisions_by_zero = if self.owned.checkpoints.is_empty() {
+                constraints.take_divisions_by_zero(self)
+            } else {
+                vec![]
+            };
             let new_info;
-            (self.owned.constraints, new_info) = self
-                .owned
-                .constraints
-                .clone()
-                .update_type_level_value_constraints(self);
+            (self.owned.constraints, new_info) =
+                constraints.update_type_level_value_constraints(self);
+
+            for loc in divisions_by_zero {
+                self.owned.diags.errors.push(
+                    Diagnostic::error(loc, "Division by zero in type level expression")
+                        .primary_label("This divides by zero"),
+                );
+            }
 
             if new_info.is_empty() {
                 break;
-- 
2.43.0


From 29145150a9fcf46863ee46269261c4d7b702c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 43/43] fix: reject literal -1 for the zero-width signed
 integer

---
 spade-typeinference/src/requirements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index 71b6563..2f1b60f 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -394,6 +394,9 @@ impl Requirement {
                                         BigInt::zero(),
                                         two.pow(size_u32) - 1.to_bigint(),
                                     )
+                                } else if size_u32 == 0 {
+                                    // Zero is the only value of a zero-width integer
+                                    (BigInt::zero(), BigInt::zero())
                                 } else {
                                     (
                                         -two.clone().pow(size_u32.saturating_sub(1)),
-- 
2.43.0

