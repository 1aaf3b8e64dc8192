From 13283d9315ce6b429e936d16b7e62b7a0b899736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 01/49] fix: split_to_single_layer expects a combined
 constraint output only if there is one

---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..518d831 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // a program without constraints has no combined constraint output
+    let num_combined = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_combined,
     }
 }
 
-- 
2.43.0


From f34a4f93a89e759bfcf3789082420fa9996de5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 02/49] fix: marking a constraint as implied keeps it if it was
 asserted

or(x, 0) and xor(x, 0) yield x itself; marking the result boolean dropped
the assertion that x is boolean.
---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From 7548dee7aa251f3e1b95ad31b084165a3bbdb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 03/49] fix: layered circuit validation checks gate input
 layers against the segment

A gate naming an input layer its segment does not have passed the range
check and then panicked.
---
 expander_compiler/src/circuit/layered/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..42640bd 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
-- 
2.43.0


From 1ae2fe26d39901c820e029fb029512eedfe49bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 04/49] fix: layered circuit validation checks coefficients

A gate with a public input number out of range passed validation.
---
 expander_compiler/src/circuit/layered/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 42640bd..bb7d2e3 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,6 +395,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
+                m.coef.validate(self.num_public_inputs)?;
                 if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
@@ -427,6 +428,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
+                a.coef.validate(self.num_public_inputs)?;
                 if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
@@ -447,6 +449,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for cs in seg.gate_consts.iter() {
+                cs.coef.validate(self.num_public_inputs)?;
                 if cs.output >= seg.num_outputs {
                     return Err(Error::InternalError(format!(
                         "segment {} const gate {} out of range",
@@ -455,6 +458,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for cu in seg.gate_customs.iter() {
+                cu.coef.validate(self.num_public_inputs)?;
                 for input in cu.inputs.iter() {
                     if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
-- 
2.43.0


From 092a6e45e71a54f904096009e863a5b82ab2fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 05/49] fix: witness solving reports a to_binary input that is
 too large instead of panicking

---
 expander_compiler/src/hints/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..57fa19d 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From b81ed00e6a31eab439405846e43b538eb0cc270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 06/49] fix: building a static hash map always terminates

---
 .../src/utils/static_hash_map.rs              | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/utils/static_hash_map.rs b/expander_compiler/src/utils/static_hash_map.rs
index 6d936aa..fd398cb 100644
--- a/expander_compiler/src/utils/static_hash_map.rs
+++ b/expander_compiler/src/utils/static_hash_map.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use rand::RngCore;
 
 pub struct StaticHashMap {
@@ -5,6 +7,8 @@ pub struct StaticHashMap {
     a: u64,
     b: u64,
     v: Vec<usize>,
+    // used instead of v when no collision-free parameters were found
+    fallback: Option<HashMap<usize, usize>>,
 }
 
 const MOD: u64 = 1_000_000_007;
@@ -40,16 +44,34 @@ impl StaticHashMap {
                             *x -= 1;
                         }
                     }
-                    return Self { m: m - 1, a, b, v };
+                    return Self {
+                        m: m - 1,
+                        a,
+                        b,
+                        v,
+                        fallback: None,
+                    };
                 }
             }
             if m < MOD / 250 {
                 m *= 2
+            } else {
+                // too many keys, or keys that are equal modulo MOD
+                return Self {
+                    m: 0,
+                    a: 0,
+                    b: 0,
+                    v: vec![],
+                    fallback: Some(s.iter().enumerate().map(|(i, &x)| (x, i)).collect()),
+                };
             }
         }
     }
 
     pub fn get(&self, x: usize) -> usize {
+        if let Some(map) = &self.fallback {
+            return map.get(&x).copied().unwrap_or(0);
+        }
         let x = (x as u64) % MOD;
         let pos = ((x * self.a + self.b) % MOD * x % MOD) & self.m;
         self.v[pos as usize]
-- 
2.43.0


From afbd2f632d97649bbd52330c60461653b313c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 07/49] fix: limiting the fan-out does not turn one random
 value into several

---
 expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..9ac1a92 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -56,9 +56,13 @@ impl<C: Config> CircuitRelaxed<C> {
 
         for (i, insn) in self.instructions.iter().enumerate() {
             match insn {
-                Instruction::ConstantLike { .. } => {
+                Instruction::ConstantLike { value } => {
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(1));
+                    // A copy of a random value would be an independent random value.
+                    max_copy_cnt.push(match value {
+                        Coef::Random => 0,
+                        _ => compute_max_copy_cnt(1),
+                    });
                     internal_var_insn_id.push(None);
                 }
                 Instruction::SubCircuitCall { num_outputs, .. } => {
-- 
2.43.0


From 4b04fc3bc2afb1c552392066641674e8148d1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 08/49] fix: finding common parts of layers keeps repeated
 gates

---
 expander_compiler/src/circuit/layered/opt.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/opt.rs b/expander_compiler/src/circuit/layered/opt.rs
index 21c50c1..342bd43 100644
--- a/expander_compiler/src/circuit/layered/opt.rs
+++ b/expander_compiler/src/circuit/layered/opt.rs
@@ -275,19 +275,29 @@ impl<C: Config, I: InputType> Segment<C, I> {
         gates
     }
 
+    // Identical gates add up, so only gates that occur once are returned.
     fn all_gates(&self) -> HashSet<UniGate<C, I>> {
         let mut gates = HashSet::new();
+        let mut repeated = HashSet::new();
+        let mut add = |gate: UniGate<C, I>| {
+            if let Some(gate) = gates.replace(gate) {
+                repeated.insert(gate);
+            }
+        };
         for gate in self.gate_muls.iter() {
-            gates.insert(UniGate::Mul(gate.clone()));
+            add(UniGate::Mul(gate.clone()));
         }
         for gate in self.gate_adds.iter() {
-            gates.insert(UniGate::Add(gate.clone()));
+            add(UniGate::Add(gate.clone()));
         }
         for gate in self.gate_consts.iter() {
-            gates.insert(UniGate::Const(gate.clone()));
+            add(UniGate::Const(gate.clone()));
         }
         for gate in self.gate_customs.iter() {
-            gates.insert(UniGate::Custom(gate.clone()));
+            add(UniGate::Custom(gate.clone()));
+        }
+        for gate in repeated.iter() {
+            gates.remove(gate);
         }
         gates
     }
-- 
2.43.0


From 38d4aac653abd0e681924e0164c98f0a93fa1a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 09/49] fix: layered circuit validation does not overflow on
 large child offsets

---
 expander_compiler/src/circuit/layered/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index bb7d2e3..e41e9af 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -517,7 +517,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if y > z || x > z - y {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -529,7 +529,9 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if subc.num_outputs > seg.num_outputs
+                        || a.output_offset > seg.num_outputs - subc.num_outputs
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
-- 
2.43.0


From 23a923a87747c8ccaf29a07243124314320a1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 10/49] fix: program statistics count sub-circuits once per
 call

---
 .../src/circuit/ir/common/stats.rs            | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/common/stats.rs b/expander_compiler/src/circuit/ir/common/stats.rs
index bec473c..fadee8e 100644
--- a/expander_compiler/src/circuit/ir/common/stats.rs
+++ b/expander_compiler/src/circuit/ir/common/stats.rs
@@ -28,21 +28,15 @@ impl<Irc: IrConfig> RootCircuit<Irc> {
             rc: self,
             m: HashMap::new(),
         };
-        let mut r = Stats {
+        sc.calc_circuit_stats(0);
+        let root = &sc.m[&0];
+        Stats {
             num_inputs: self.input_size(),
-            num_insns: 0,
-            num_terms: 0,
-            num_variables: 0,
-            num_constraints: 0,
-        };
-        for id in self.circuits.keys() {
-            sc.calc_circuit_stats(*id);
-            r.num_terms += sc.m[id].num_terms;
-            r.num_insns += sc.m[id].num_insns;
-            r.num_variables += sc.m[id].num_variables;
-            r.num_constraints += sc.m[id].num_constraints;
+            num_insns: root.num_insns,
+            num_terms: root.num_terms,
+            num_variables: root.num_variables,
+            num_constraints: root.num_constraints,
         }
-        r
     }
 }
 
@@ -64,6 +58,7 @@ impl<'a, Irc: IrConfig> StatsContext<'a, Irc> {
             r.num_terms += insn.inputs().len();
             if let Some((sub_circuit_id, _, _)) = insn.as_sub_circuit_call() {
                 self.calc_circuit_stats(sub_circuit_id);
+                r.num_insns += self.m[&sub_circuit_id].num_insns;
                 r.num_terms += self.m[&sub_circuit_id].num_terms;
                 r.num_constraints += self.m[&sub_circuit_id].num_constraints;
                 r.num_variables += self.m[&sub_circuit_id].num_variables;
-- 
2.43.0


From 644d586d8b2f980bf4c272ea917e7840ad7a693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 11/49] fix: export refuses custom gates with several inputs
 instead of dropping inputs

---
 expander_compiler/src/circuit/layered/export.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expander_compiler/src/circuit/layered/export.rs b/expander_compiler/src/circuit/layered/export.rs
index 558d5ab..6b44bb5 100644
--- a/expander_compiler/src/circuit/layered/export.rs
+++ b/expander_compiler/src/circuit/layered/export.rs
@@ -33,6 +33,7 @@ impl<C: Config> Circuit<C, NormalInputType> {
                     .gate_customs
                     .iter()
                     .map(|gate| {
+                        assert_eq!(gate.inputs.len(), 1);
                         let (c, r) = gate.coef.export_to_expander();
                         expander_circuit::GateUni {
                             i_ids: [gate.inputs[0].offset()],
-- 
2.43.0


From d2a06c794d11e3fcd3ba8058150b99c122f211a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 12/49] fix: batched witness solving reports a custom gate as
 an error, like solving one assignment

---
 expander_compiler/src/circuit/ir/hint_normalized/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 012a3dd..a9ae41a 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -624,7 +624,9 @@ impl<C: Config> RootCircuit<C> {
                     )?;
                 }
                 Instruction::CustomGate { .. } => {
-                    panic!("CustomGate currently unsupported");
+                    return Err(Error::UserError(
+                        "CustomGate currently unsupported".to_string(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From eee4b50967dcc38f98bf71d7e8337d245530c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 13/49] fix: HintRegistry reports an unknown hint as an error

---
 expander_compiler/src/hints/registry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/hints/registry.rs b/expander_compiler/src/hints/registry.rs
index d3259be..95396c8 100644
--- a/expander_compiler/src/hints/registry.rs
+++ b/expander_compiler/src/hints/registry.rs
@@ -42,7 +42,7 @@ impl<F: Field> HintRegistry<F> {
             let mut outputs = vec![F::zero(); num_outputs];
             hint(args, &mut outputs).map(|_| outputs)
         } else {
-            panic!("Hint with id {id} not found");
+            Err(Error::UserError(format!("hint with id {id} not found")))
         }
     }
 }
-- 
2.43.0


From d6ff635dc5cdf1e05b271fc7b876f15be1d0dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 14/49] fix: reading a linear combination does not reserve
 memory for an unchecked length

---
 expander_compiler/src/circuit/ir/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/expr.rs b/expander_compiler/src/circuit/ir/expr.rs
index 7ca0fbe..31c7065 100644
--- a/expander_compiler/src/circuit/ir/expr.rs
+++ b/expander_compiler/src/circuit/ir/expr.rs
@@ -482,7 +482,8 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        // the length is not trusted: memory is only taken for terms that are there
+        let mut terms = Vec::new();
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From 9bbfb05c0fcb2a114c1650a81aa35dc99d566cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 15/49] fix: reading a witness checks its sizes and accepts
 witnesses without values

---
 .../src/circuit/layered/witness.rs            | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..2e4a669 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -54,6 +54,9 @@ fn pack_block<F: Field, SF: arith::SimdField<Scalar = F>>(
     let pack_size = SF::PACK_SIZE;
     let mut res = Vec::with_capacity(a);
     let mut res2 = Vec::with_capacity(b);
+    if a + b == 0 {
+        return (res, res2);
+    }
     let s_size = (s.len() / (a + b)).min(pack_size);
     for i in 0..a {
         let mut tmp = Vec::with_capacity(pack_size);
@@ -184,7 +187,11 @@ impl<C: Config> Witness<C> {
         let mut res = Vec::new();
         let a = self.num_inputs_per_witness + self.num_public_inputs_per_witness;
         let pack_size = SIMDField::<C>::PACK_SIZE;
-        let num_blocks = (self.num_witnesses + pack_size - 1) / pack_size;
+        let num_blocks = if a == 0 {
+            0
+        } else {
+            (self.num_witnesses + pack_size - 1) / pack_size
+        };
         for i in 0..num_blocks {
             let tmp =
                 pack_block::<CircuitField<C>, SIMDField<C>>(&values[i * pack_size * a..], a, 0);
@@ -305,10 +312,14 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|x| x.checked_mul(num_witnesses))
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        let mut values = Vec::new();
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From 66b5dd2efd4cd10536713e99e25b8e7554f66acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 16/49] fix: memorized_simple_call: do not share a sub circuit
 between closures with captured values or function pointers

---
 expander_compiler/src/frontend/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 54659cc..60784d3 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -719,6 +719,11 @@ impl<C: Config> RootAPI<C> for RootBuilder<C> {
         hasher.update(b"simple");
         hasher.update(&inputs.len().to_le_bytes());
         hasher.update(&get_function_id::<F>().to_le_bytes());
+        if std::mem::size_of::<F>() != 0 {
+            // The type does not determine what a function pointer or a closure with captured
+            // values computes, so the call gets a sub circuit of its own.
+            hasher.update(&self.full_hash_id.len().to_le_bytes());
+        }
         let mut hash = [0u8; 32];
         hasher.finalize(&mut hash);
 
-- 
2.43.0


From 27bf6b379e1c6007c671e729b43376f5c882b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 17/49] fix: debug evaluation panics on the second call of a
 memorized function

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..3eabbf7 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // Every call of a memorized function is evaluated here, so this may not be the first one.
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From 0de6adf2d26c5d747acec2dbdf7d80307abb4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 18/49] fix: memorized functions with equal argument structure
 share a sub circuit

---
 expander_compiler/macros/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..c02f58c 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,10 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            // Different functions must not share a sub circuit.
+            fn function_id() {}
+            hasher.update(std::any::type_name_of_val(&function_id).as_bytes());
+            hasher.update(concat!(":", line!(), ":", column!(), ";").as_bytes());
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From e480b65bf0fa61e6615c91e37b400a90e13c1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 19/49] fix: unconstrained division by zero: same value when
 evaluated and when solved

---
 expander_compiler/src/circuit/ir/source/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/source/mod.rs b/expander_compiler/src/circuit/ir/source/mod.rs
index aacc693..6458408 100644
--- a/expander_compiler/src/circuit/ir/source/mod.rs
+++ b/expander_compiler/src/circuit/ir/source/mod.rs
@@ -414,8 +414,9 @@ impl UnconstrainedBinOpType {
     pub fn eval<F: Field>(&self, x: &F, y: &F) -> Result<F, Error> {
         match self {
             UnconstrainedBinOpType::Div => {
+                // same as the builtin hint
                 if y.is_zero() {
-                    Err(Error::UserError("division by zero".to_string()))
+                    Ok(F::zero())
                 } else {
                     Ok(*x * y.inv().unwrap())
                 }
@@ -435,14 +436,14 @@ impl UnconstrainedBinOpType {
             }
             UnconstrainedBinOpType::IntDiv => binop_on_u256(x, y, |x, y| {
                 if y == U256::ZERO {
-                    Err(Error::UserError("division by zero".to_string()))
+                    Ok(U256::ZERO)
                 } else {
                     Ok(x / y)
                 }
             }),
             UnconstrainedBinOpType::Mod => binop_on_u256(x, y, |x, y| {
                 if y == U256::ZERO {
-                    Err(Error::UserError("division by zero".to_string()))
+                    Ok(U256::ZERO)
                 } else {
                     Ok(x % y)
                 }
-- 
2.43.0


From 92d97fc043c177d1122355e0219d583cc138d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 20/49] fix: number of variables of an array without elements

---
 expander_compiler/src/frontend/variables.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/frontend/variables.rs b/expander_compiler/src/frontend/variables.rs
index b74d87c..3c70117 100644
--- a/expander_compiler/src/frontend/variables.rs
+++ b/expander_compiler/src/frontend/variables.rs
@@ -54,6 +54,6 @@ where
         }
     }
     fn num_vars(&self) -> usize {
-        N * self[0].num_vars()
+        self.iter().map(|x| x.num_vars()).sum()
     }
 }
-- 
2.43.0


From ebd405db26088cbffc09b5f3f9c3a01a4defdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 21/49] fix: kernel cache: a kernel at the address of an
 earlier one is another kernel

---
 expander_compiler/src/zkcuda/context.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..457d85b 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,12 +396,14 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        // The address may meanwhile belong to another kernel, so the cached one is compared.
+        let kernel_id = match self.kernel_ptr_cache.get(&ptr) {
+            Some(&cached_id) if self.kernel_primitives.get(cached_id) == kernel => cached_id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From 043b7f7c023a9165f64d6f72143f047724f77b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 22/49] fix: load_computation_graph: take the kernel of a call
 from its template

---
 expander_compiler/src/zkcuda/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 457d85b..c565342 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -656,7 +656,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             })
         };
         let mut dm_max = self.device_memories.len();
-        for kernel_call in self.kernel_calls.iter() {
+        for (call_idx, kernel_call) in self.kernel_calls.iter().enumerate() {
             let pad_shapes_input = kernel_call
                 .input_handles
                 .iter()
@@ -668,9 +668,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(templates) = &cg_proof_templates {
+                // Get kernel from loaded kernels, the loaded template tells which
+                let template = templates
+                    .get(call_idx)
+                    .expect("Computation graph has fewer kernel calls");
+                self.kernels.get(template.kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From b099503d50ad4b7ab209cdd6321bf6b260d191dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 23/49] fix: call_kernel: a handle given for an output-only
 parameter is not an input

---
 expander_compiler/src/zkcuda/context.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index c565342..0b64d15 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -338,6 +338,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         if kernel.io_shapes().len() != ios.len() {
             panic!("Invalid number of inputs/outputs");
         }
+        // What the handle of an output-only parameter holds before the call is not an input
+        let input_handles = ios
+            .iter()
+            .zip(kernel.io_specs().iter())
+            .map(|(io, spec)| if spec.is_input { io.clone() } else { None })
+            .collect::<Vec<_>>();
         let mut is_broadcast = Vec::with_capacity(ios.len());
         for (i, ((kernel_shape, io), spec)) in kernel
             .io_shapes()
@@ -417,7 +423,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         let mut ir_inputs_owned: Vec<Vec<SIMDField<C>>> = vec![Vec::new(); kernel.io_specs().len()];
         let mut ir_inputs_refs: Vec<Option<usize>> = vec![None; kernel.io_specs().len()]; // device_memory id if using ref
         let mut chunk_sizes: Vec<Option<usize>> = vec![None; kernel.io_specs().len()];
-        for (i, ((input, &ib), chunk_size)) in ios
+        for (i, ((input, &ib), chunk_size)) in input_handles
             .iter()
             .zip(is_broadcast.iter())
             .zip(chunk_sizes.iter_mut())
@@ -453,7 +459,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         let mut ir_inputs_per_parallel = Vec::new();
         for parallel_i in 0..num_parallel {
             let mut ir_inputs = vec![SIMDField::<C>::zero(); kernel.ir_for_calling().input_size()];
-            for (i, ((input, input_start), input_end)) in ios
+            for (i, ((input, input_start), input_end)) in input_handles
                 .iter()
                 .zip(kernel.ir_input_offsets().iter())
                 .zip(kernel.ir_input_offsets().iter().skip(1))
@@ -496,7 +502,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             }
         }
         } // end if has_outputs
-        let input_handles = ios.to_vec();
         let mut output_handles = vec![None; kernel.io_specs().len()];
 
         for ((((output, out2), spec), ov), shape) in ios
-- 
2.43.0


From e6cfc36a41177cf6a9b4199348bd47a4dda44895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 24/49] fix: compile_computation_graph: calls with broadcast
 inputs only

---
 expander_compiler/src/zkcuda/context.rs | 37 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 0b64d15..ad444ff 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -180,6 +180,32 @@ fn check_shape_compat(
     }
 }
 
+// The dimensions that make up the parallel instances of a call. After propagation, they are the
+// same for all inputs and outputs that are not broadcast.
+fn parallel_shape(kernel_call: &KernelCall, dm_shapes: &[Shape]) -> Shape {
+    let split_handle = kernel_call
+        .input_handles
+        .iter()
+        .chain(kernel_call.output_handles.iter())
+        .zip(
+            kernel_call
+                .is_broadcast
+                .iter()
+                .chain(kernel_call.is_broadcast.iter()),
+        )
+        .filter(|(_, &ib)| !ib)
+        .find_map(|(handle, _)| handle.as_ref());
+    match split_handle {
+        Some(handle) => {
+            let (shape, _) = handle
+                .shape_history
+                .get_transposed_shape_and_bit_order(&dm_shapes[handle.id]);
+            keep_shape_until(&shape, kernel_call.num_parallel)
+        }
+        None => vec![kernel_call.num_parallel],
+    }
+}
+
 impl Reshape for DeviceMemoryHandle {
     fn reshape(&self, new_shape: &[usize]) -> Self {
         let handle = ensure_handle(self.clone());
@@ -708,7 +734,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
 
             let mut commitment_indices: Vec<usize> = Vec::new();
             let mut commitment_bit_orders: Vec<BitOrder> = Vec::new();
-            let mut any_shape = None;
             let mut is_broadcast = Vec::new();
             for (((spec, pad_shape), handle), &ib) in kernel_primitive
                 .io_specs()
@@ -722,9 +747,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     commitment_indices.push(handle.as_ref().unwrap().id);
                     commitment_bit_orders.push(shape.1.clone());
                     is_broadcast.push(ib);
-                    if !ib {
-                        any_shape = Some(shape.0.clone());
-                    }
                 }
             }
             for (((spec, pad_shape), handle), &ib) in kernel_primitive
@@ -739,15 +761,10 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     commitment_indices.push(handle.as_ref().unwrap().id);
                     commitment_bit_orders.push(shape.1.clone());
                     is_broadcast.push(ib);
-                    if !ib {
-                        any_shape = Some(shape.0.clone());
-                    }
                 }
             }
 
-            let any_shape = any_shape.unwrap();
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
-            let dim0_len = shape_vec_padded_len(&any_shape);
+            let dim0_len = shape_vec_padded_len(&parallel_shape(kernel_call, &dm_shapes));
 
             if kernel.hint_solver().is_some() {
                 // if the kernel has a hint solver, we need to add another input
-- 
2.43.0


From d902a08eda4a54fc81452b02ec7d547fa52bb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 25/49] fix: solve_witness: hints are split like the instances
 in the computation graph

---
 expander_compiler/src/zkcuda/context.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index ad444ff..4ebf3d7 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -822,6 +822,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             }
         }
         self.state = ContextState::WitnessDone;
+        let dm_shapes = self.get_current_device_memory_shapes();
 
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
@@ -839,7 +840,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 vec![None; kernel_primitive.io_specs().len()];
             let mut output_chunk_sizes: Vec<Option<usize>> =
                 vec![None; kernel_primitive.io_specs().len()];
-            let mut any_shape = None;
             for (((input, &ib), ir_inputs), chunk_size) in kernel_call
                 .input_handles
                 .iter()
@@ -851,9 +851,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -873,9 +870,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(output.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -944,14 +938,10 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
-            let mut any_shape_products =
-                keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
-            if kernel_call.num_parallel != hints_len {
-                any_shape_products.push(hints_len);
-            }
+            let mut hints_shape = parallel_shape(kernel_call, &dm_shapes);
+            hints_shape.push(hints_len / kernel_call.num_parallel);
             self.device_memories[hints_id].required_shape_products = merge_shape_products(
-                &any_shape_products,
+                &prefix_products(&hints_shape),
                 &self.device_memories[hints_id].required_shape_products,
             );
         }
-- 
2.43.0


From a52b9694dd5e7c2644661a835b2886fa8c73b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 26/49] fix: transpose: refuse axes that are not a permutation

---
 expander_compiler/src/zkcuda/shape.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..2b8229b 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -435,6 +435,11 @@ impl Transpose for ShapeHistory {
                 axes.len()
             );
         }
+        let mut sorted_axes = axes.to_vec();
+        sorted_axes.sort();
+        if !sorted_axes.iter().enumerate().all(|(i, &a)| i == a) {
+            panic!("Transpose axes must be a permutation of the dimensions, got {axes:?}");
+        }
         let mut res = self.clone();
         match &res.entries.last().unwrap().axes {
             None => {
-- 
2.43.0


From 22d441ca2340dddfd6f8b9f33e9dc2e4dcc57830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 27/49] fix: shape history: dimensions of size 1 in
 transpositions

---
 expander_compiler/src/zkcuda/shape.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 2b8229b..089aa57 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -46,15 +46,28 @@ impl Entry {
             }
             Some(axes) => axes,
         };
-        let mut merge_shape = vec![false; self.shape.len()];
+        // Dimensions of size 1 do not split anything
+        let keep_first_dim =
+            keep_first_dim && axes.first().is_some_and(|&first| self.shape[first] != 1);
+        let mut rank = vec![0; self.shape.len() + 1];
+        for (i, &s) in self.shape.iter().enumerate() {
+            rank[i + 1] = rank[i] + (s != 1) as usize;
+        }
+        let axes: &Vec<usize> = &axes
+            .iter()
+            .filter(|&&a| self.shape[a] != 1)
+            .map(|&a| rank[a])
+            .collect();
+        let shape: Shape = self.shape.iter().cloned().filter(|&s| s != 1).collect();
+        let mut merge_shape = vec![false; shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
                 merge_shape[b] = true;
             }
         }
-        let mut new_shape_id = vec![0; self.shape.len()];
-        let mut new_shape = Vec::with_capacity(self.shape.len());
-        for (i, &s) in self.shape.iter().enumerate() {
+        let mut new_shape_id = vec![0; shape.len()];
+        let mut new_shape = Vec::with_capacity(shape.len());
+        for (i, &s) in shape.iter().enumerate() {
             if !merge_shape[i] {
                 new_shape_id[i] = new_shape.len();
                 new_shape.push(s);
-- 
2.43.0


From f0ca4df8e201cbead0c2f9e4172d4bbe42aba010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 28/49] fix: shape history: transpositions that keep dimensions
 together

---
 expander_compiler/src/zkcuda/shape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 089aa57..3a410ab 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -340,6 +340,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // the shape is only split where the minimized entry needs it
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From fe737aa3859551bba2351da26c317ee563617399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 29/49] fix: copy_flat_simd_to_device: refuse a length that is
 no multiple of the columns

---
 expander_compiler/src/zkcuda/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 4ebf3d7..355475e 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -289,7 +289,14 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         flat: Vec<SIMDField<C>>,
         cols: usize,
     ) -> DeviceMemoryHandle {
-        let groups = if cols > 0 { flat.len() / cols } else { flat.len() };
+        if cols == 0 || flat.is_empty() || flat.len() % cols != 0 {
+            panic!(
+                "Flat data of length {} can not be divided into groups of {}",
+                flat.len(),
+                cols
+            );
+        }
+        let groups = flat.len() / cols;
         let shape = vec![groups, cols];
         make_device_mem(&mut self.device_memories, flat, shape)
     }
-- 
2.43.0


From c3dfbd2097c9896facd20530dd4213a3cb171e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 30/49] fix: dummy verifier: reject failed conditions and
 missing proofs

---
 expander_compiler/src/zkcuda/proving_system/dummy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..9fb57fe 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -108,6 +108,9 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
     ) -> bool {
         let values = commitments.iter().map(|c| &c.vals[..]).collect::<Vec<_>>();
         check_inputs(kernel, &values, parallel_count, is_broadcast);
+        if proof.cond.len() != parallel_count {
+            return false;
+        }
         for i in 0..parallel_count {
             let lc_input = prepare_inputs(
                 kernel.layered_circuit(),
@@ -119,7 +122,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond != proof.cond[i] || !cond.iter().all(|x| *x) {
                 return false;
             }
         }
@@ -190,6 +193,9 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
         let verified = proof
             .proofs
             .par_iter()
-- 
2.43.0


From 1afbaab74cec82546d8ecd3f2393725c1a8ab989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 31/49] fix: dummy proving system: read commitments in the
 order that the graph gives

---
 .../src/zkcuda/proving_system/dummy.rs        | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index 9fb57fe..05cba77 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -5,6 +5,7 @@ use crate::circuit::config::{Config, SIMDField};
 use crate::utils::misc::next_power_of_two;
 use crate::zkcuda::context::ComputationGraph;
 use crate::zkcuda::proving_system::{CombinedProof, KernelWiseProvingSystem, ProvingSystem};
+use crate::zkcuda::shape::BitOrder;
 
 use super::super::kernel::Kernel;
 
@@ -28,6 +29,23 @@ pub struct DummyProof {
     cond: Vec<Vec<bool>>,
 }
 
+// The values in the order in which a kernel reads them, see BitOrder
+fn apply_bit_order<T: Copy>(vals: &[T], bit_order: &BitOrder) -> Vec<T> {
+    if vals.len() != 1 << bit_order.len() {
+        panic!("Input size mismatch");
+    }
+    (0..vals.len())
+        .map(|i| {
+            let j = bit_order
+                .iter()
+                .enumerate()
+                .map(|(k, &a)| ((i >> k) & 1) << a)
+                .sum::<usize>();
+            vals[j]
+        })
+        .collect()
+}
+
 // TODO
 /*#[deprecated(
     note = "DummyProvingSystem is a dummy implementation for testing purposes. Please use Expander."
@@ -162,13 +180,18 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
             .proof_templates()
             .iter()
             .map(|template| {
-                let (mut local_commitments, mut local_state, mut local_vals) =
+                let (mut local_commitments, mut local_state, mut ordered_vals) =
                     (vec![], vec![], vec![]);
-                for idx in template.commitment_indices() {
+                for (idx, bit_order) in template
+                    .commitment_indices()
+                    .iter()
+                    .zip(template.commitment_bit_orders())
+                {
                     local_commitments.push(&commitments[*idx]);
                     local_state.push(&states[*idx]);
-                    local_vals.push(&device_memories[*idx][..]);
+                    ordered_vals.push(apply_bit_order(&device_memories[*idx], bit_order));
                 }
+                let local_vals = ordered_vals.iter().map(|v| &v[..]).collect::<Vec<_>>();
 
                 <Self as KernelWiseProvingSystem<C>>::prove_kernel(
                     prover_setup,
@@ -201,11 +224,15 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
             .par_iter()
             .zip(computation_graph.proof_templates().par_iter())
             .map(|(local_proof, template)| {
-                let local_commitments = template
+                let ordered_commitments = template
                     .commitment_indices()
                     .iter()
-                    .map(|idx| &proof.commitments[*idx])
+                    .zip(template.commitment_bit_orders())
+                    .map(|(idx, bit_order)| DummyCommitment {
+                        vals: apply_bit_order(&proof.commitments[*idx].vals, bit_order),
+                    })
                     .collect::<Vec<_>>();
+                let local_commitments = ordered_commitments.iter().collect::<Vec<_>>();
 
                 <Self as KernelWiseProvingSystem<C>>::verify_kernel(
                     verifier_setup,
-- 
2.43.0


From 8a82889d20d1699d2d3a7cc7d1e2dcc0038d2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 32/49] fix: range proofs accepted negative values when the
 width is not a multiple of the chunk size

---
 circuit-std-rs/src/logup.rs | 54 ++++++++++++-------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..4849bac 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,33 +397,13 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
-        let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n_chunks = n.div_ceil(self.rangeproof_bits);
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((n_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, n_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -433,10 +413,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
+        builder.assert_is_equal(sum, a);
+        for witness in witnesses.iter().take(n_chunks - 1) {
             self.query_range(*witness);
         }
+        // the top chunk may have fewer bits
+        let top_bits = n - (n_chunks - 1) * self.rangeproof_bits;
+        self.rangeproof_onechunk(builder, witnesses[n_chunks - 1], top_bits);
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -449,18 +432,15 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
-        //add a shift value
-        let mut new_a = a;
-        if n % self.rangeproof_bits != 0 {
-            let rem = n % self.rangeproof_bits;
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-            let mut mul_factor = 1;
-            mul_factor <<= n;
+        self.query_range(a);
+        // a is below 2^rangeproof_bits; it is below 2^n if the shifted value is too
+        if n < self.rangeproof_bits {
+            let constant = (1u32 << (self.rangeproof_bits - n)) - 1;
+            let mul_factor = 1u32 << n;
             let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+            let new_a = builder.add(a, a_shift);
+            self.query_range(new_a);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
@@ -546,7 +526,7 @@ pub fn rangeproof_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(),
     let n = inputs[0].to_u256().as_i64();
     let m = inputs[1].to_u256().as_i64();
 
-    let mut a = inputs[2].to_u256(); // Value 'new_a' as U256
+    let mut a = inputs[2].to_u256();
 
     let chunk_mod = U256::from(1_u64) << m;
 
-- 
2.43.0


From 4de1ff923c8566dffdc5be6b8d6e8307ccc5e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 33/49] fix: opt level 1 left unused random values in the
 witness solver, which then failed

---
 expander_compiler/src/compile/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 90debc9..4e44a12 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -298,6 +298,10 @@ pub fn compile_step_4<C: Config>(
             let (r, im) = r.remove_unreachable();
             (r, im)
         })
+    } else if options.opt_level >= 1 {
+        let (r, im) = r_hint_exported.remove_unreachable();
+        src_im.compose_in_place(&im);
+        r
     } else {
         r_hint_exported
     };
-- 
2.43.0


From c33c7daebd295d4c41f3004e5d83fef60b5e6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 34/49] fix: MatMulCircuit took variable ids for numbers

---
 circuit-std-rs/src/matmul.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..13eef57 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -40,9 +40,9 @@ impl<C: Config> Define<C> for MatMulCircuit {
         let r2 = self.result_mat[0].len();
         let zero = builder.constant(0);
 
-        builder.assert_is_equal(Variable::from(n1), Variable::from(m2));
-        builder.assert_is_equal(Variable::from(r1), Variable::from(m1));
-        builder.assert_is_equal(Variable::from(r2), Variable::from(n2));
+        assert_eq!(n1, m2);
+        assert_eq!(r1, m1);
+        assert_eq!(r2, n2);
 
         let loop_count = if CircuitField::<C>::SIZE == M31::SIZE {
             3
@@ -56,7 +56,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From 193a6781b0a6922b569c79d1b47d1ad5442b37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 35/49] fix: U2048 assert_mul compared only the four lowest
 limbs

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From 39602371c96365bfe2187ae59aa093d3ed313b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 36/49] fix: SHA-256 padding underflowed for messages that end
 beyond bit 447 of a block

---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..5ac1974 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - (data_len + 1) % 512) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From 18577a01aeb2dfb9fa8d60ddd98fc8819209b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 37/49] fix: query_count_by_key_hint confused keys that agree
 in their lowest 32 bits

---
 circuit-std-rs/src/logup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index 4849bac..21503ab 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -504,14 +504,14 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From 02c616efc7339d8f0b04f3f5d282021de330cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:29 +0000
Subject: [PATCH 38/49] =?UTF-8?q?fix:=20the=20G1=20membership=20check=20co?=
 =?UTF-8?q?mpared=20[x=C2=B2]=CF=95(P)=20with=20its=20negative=20and=20ref?=
 =?UTF-8?q?used=20every=20point?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..1354a23 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -472,7 +472,7 @@ impl Pairing {
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        self.g1.assert_is_equal(native, &neg_p_squared, p);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From 10e4fb637f2b0411152369c3ffd6d8bc823c6a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 39/49] fix: G1 map_to_curve1 compared the claimed square with
 itself: any ordinate was accepted

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index bba0ee0..abed807 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -551,7 +551,7 @@ impl G1 {
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
 
-        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &res_y_sq);
+        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &y_sq);
 
         self.curve_f
             .assert_is_equal(native, &expected_y_sq, &res_y_sq);
-- 
2.43.0


From 47b534e203bb495af16b3b1899f558e31e55fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 40/49] fix: constrain every power up to x^65536 in the RSA
 circuit

---
 rsa_circuit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index 5bd0ad0..e35c08f 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -130,7 +130,7 @@ impl Define<BN254Config> for RSACircuit<Variable> {
             );
 
             // compute x^4, to x^65536
-            for i in 1..11 {
+            for i in 1..16 {
                 U2048Variable::assert_mul(
                     &x_power_vars[i - 1],
                     &x_power_vars[i - 1],
-- 
2.43.0


From 52bcbc36822a4cd86a755e14d453d330b5f45fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 41/49] fix: RSAFieldElement::mod_mul returns the remainder

---
 rsa_circuit/src/native.rs | 85 +--------------------------------------
 1 file changed, 1 insertion(+), 84 deletions(-)

diff --git a/rsa_circuit/src/native.rs b/rsa_circuit/src/native.rs
index 6f6a59a..e0a1d7d 100644
--- a/rsa_circuit/src/native.rs
+++ b/rsa_circuit/src/native.rs
@@ -249,89 +249,6 @@ impl RSAFieldElement {
 
     // Performs modular multiplication: (self * other) mod modulus
     pub fn mod_mul(&self, other: &Self, modulus: &Self) -> Self {
-        // First compute full multiplication without reduction
-        let mut product = [0u128; 2 * N_LIMBS];
-        Self::mul_without_reduction(self, other, &mut product);
-
-        // Now we need to reduce the result modulo our modulus
-        // We'll use the division algorithm to compute quotient and remainder
-        let mut quotient = [0u128; N_LIMBS];
-        let mut remainder = [0u128; N_LIMBS];
-
-        // Start from the most significant limb
-        for i in (0..N_LIMBS).rev() {
-            // Process each limb of the product
-            let current_value = product[i + N_LIMBS];
-
-            // If we have any value in the upper half, we need to reduce it
-            if current_value > 0 {
-                // Estimate how many times we need to subtract modulus
-                // Since we're working with 120-bit limbs, we can do a rough estimate
-                let q = current_value;
-
-                // Update quotient
-                quotient[i] = q;
-
-                // Subtract q * modulus from the current position
-                let mut borrow = 0u128;
-                let mut carry = 0u128;
-
-                // First multiply q with modulus
-                for j in 0..N_LIMBS {
-                    if i + j < 2 * N_LIMBS {
-                        let (prod, prod_carry) = mul_u120_with_carry(&q, &modulus.data[j], &carry);
-                        carry = prod_carry;
-
-                        // Subtract from product
-                        if prod > product[i + j] + borrow {
-                            product[i + j] = (1u128 << 120) + product[i + j] - prod - borrow;
-                            borrow = 1;
-                        } else {
-                            product[i + j] = product[i + j] - prod - borrow;
-                            borrow = 0;
-                        }
-                    }
-                }
-            }
-        }
-
-        // The lower N_LIMBS of product is now our remainder
-        for i in 0..N_LIMBS {
-            remainder[i] = product[i] & MASK120;
-        }
-        remainder[N_LIMBS - 1] &= MASK8;
-
-        // Final adjustments if remainder >= modulus
-        let mut is_greater = false;
-        let mut i = N_LIMBS - 1;
-        while i > 0 && !is_greater {
-            match remainder[i].cmp(&modulus.data[i]) {
-                std::cmp::Ordering::Greater => {
-                    is_greater = true;
-                }
-                std::cmp::Ordering::Less => {
-                    break;
-                }
-                std::cmp::Ordering::Equal => {
-                    break;
-                }
-            }
-            i -= 1;
-        }
-
-        if is_greater {
-            let mut borrow = 0u128;
-            for i in 0..N_LIMBS {
-                if modulus.data[i] + borrow > remainder[i] {
-                    remainder[i] = (1u128 << 120) + remainder[i] - modulus.data[i] - borrow;
-                    borrow = 1;
-                } else {
-                    remainder[i] = remainder[i] - modulus.data[i] - borrow;
-                    borrow = 0;
-                }
-            }
-        }
-
-        Self { data: remainder }
+        self.slow_mul_mod(other, modulus).0
     }
 }
-- 
2.43.0


From 71d48b79a8b48bf7c8afa25b488810734af7edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 42/49] fix: text loader reads the target of a line

---
 expander_compiler/src/utils/interpreter_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 6f9f2f3..760786c 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -50,7 +50,7 @@ impl M31Loader {
     fn parse_lval(toks: &[&str]) -> usize {
         let raw = toks[1];
         assert!((raw.chars().nth(0) == Some('=')));
-        assert!((raw.chars().nth(0) == Some('v')));
+        assert!((raw.chars().nth(1) == Some('v')));
         raw[2..].parse::<usize>().unwrap()
     }
 
-- 
2.43.0


From c7ca80e33fe78526f1145126771e94be913a5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 43/49] fix: text loader keeps the outputs it has stored

---
 expander_compiler/src/utils/interpreter_loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 760786c..82e6a0f 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -185,8 +185,12 @@ impl M31Loader {
                     let i = Self::parse_idx(&v, 2);
                     let j = Self::parse_idx(&v, 3);
                     let idx = v[4][1..].parse::<usize>().unwrap();
-                    output.resize(i + 1, vec![]);
-                    output[i].resize(j + 1, vec![]);
+                    if output.len() <= i {
+                        output.resize(i + 1, vec![]);
+                    }
+                    if output[i].len() <= j {
+                        output[i].resize(j + 1, vec![]);
+                    }
                     output[i][j] = self.symbols[idx].clone();
                 }
                 _ => {
-- 
2.43.0


From 16f129c3bcf4ffa12741efb72d90228f2f499c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 44/49] fix: text loader's big_array_add does not wrap around
 the field

---
 expander_compiler/src/utils/interpreter_loader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 82e6a0f..a00359b 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -28,11 +28,17 @@ impl M31Loader {
         let mut c = vec![api.constant(0); a.len()];
         let mut carry = api.constant(0);
         for i in 0..a.len() {
+            // two limbs and a carry may add up to the modulus, so the carry is added
+            // to the reduced sum of the limbs
             c[i] = api.add(a[i], b[i]);
+            let carry_limbs = api.to_binary(c[i], nb_bits + 1)[nb_bits];
+            let tmp = api.mul(carry_limbs, 1 << nb_bits);
+            c[i] = api.sub(c[i], tmp);
             c[i] = api.add(c[i], carry);
-            carry = api.to_binary(c[i], nb_bits + 1)[nb_bits];
-            let tmp = api.mul(carry, 1 << nb_bits);
+            let carry_in = api.to_binary(c[i], nb_bits + 1)[nb_bits];
+            let tmp = api.mul(carry_in, 1 << nb_bits);
             c[i] = api.sub(c[i], tmp);
+            carry = api.add(carry_limbs, carry_in);
         }
         c
     }
-- 
2.43.0


From 4375ae2cc305a7bc4ad347e2386c142acc3b2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 45/49] fix: Div is checked and DivUnchecked is not

---
 ecgo/builder/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/api.go b/ecgo/builder/api.go
index 732ddde..9c868ca 100644
--- a/ecgo/builder/api.go
+++ b/ecgo/builder/api.go
@@ -152,7 +152,7 @@ func (builder *builder) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable
 		Type:    irsource.Div,
 		X:       v1,
 		Y:       v2,
-		ExtraId: 1,
+		ExtraId: 0,
 	})
 	return builder.addVar()
 }
@@ -175,7 +175,7 @@ func (builder *builder) Div(i1, i2 frontend.Variable) frontend.Variable {
 		Type:    irsource.Div,
 		X:       v1,
 		Y:       v2,
-		ExtraId: 0,
+		ExtraId: 1,
 	})
 	return builder.addVar()
 }
-- 
2.43.0


From 38a23ec84e6f920a3644a81a0995e37d2507908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 46/49] fix: MemorizedCall tells calls with different arguments
 apart

---
 ecgo/builder/sub_circuit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/sub_circuit.go b/ecgo/builder/sub_circuit.go
index 72add55..beda28b 100644
--- a/ecgo/builder/sub_circuit.go
+++ b/ecgo/builder/sub_circuit.go
@@ -318,8 +318,8 @@ func (parent *builder) MemorizedCall(fn SubCircuitFunc, inputs ...interface{}) i
 		h.Write([]byte("|"))
 	}
 	for _, i := range others {
-		vs := inputVals[i].String()
-		h.Write([]byte(strconv.Itoa(len(vs)) + vs))
+		vs := fmt.Sprint(inputVals[i].Interface())
+		h.Write([]byte(strconv.Itoa(len(vs)) + "." + vs))
 	}
 	var tmp [32]byte
 	copy(tmp[:], h.Sum(nil))
-- 
2.43.0


From f5c8e6605ab15f9ba5f56e7ec78d2c243a21dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 47/49] fix: variadic functions can be memorised

---
 ecgo/builder/sub_circuit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecgo/builder/sub_circuit.go b/ecgo/builder/sub_circuit.go
index beda28b..8febd0f 100644
--- a/ecgo/builder/sub_circuit.go
+++ b/ecgo/builder/sub_circuit.go
@@ -300,8 +300,12 @@ func (parent *builder) MemorizedCall(fn SubCircuitFunc, inputs ...interface{}) i
 		if numIn-1 > len(inputs) {
 			vars = vars[:len(vars)-1]
 		} else {
+			// each of these arguments is an element of the last parameter
+			elemLevel := varLevel[numIn-1] - 1
+			varLevel[numIn-1] = elemLevel
 			for i := numIn; i <= len(inputs); i++ {
 				vars = append(vars, i)
+				varLevel = append(varLevel, elemLevel)
 			}
 		}
 	}
-- 
2.43.0


From 66f11cd6d8c9e93dc8b9c47559adbb44effa3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 48/49] fix: finalize sub circuits first called by deferred
 functions

---
 ecgo/builder/finalize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/finalize.go b/ecgo/builder/finalize.go
index d8956fe..77e8203 100644
--- a/ecgo/builder/finalize.go
+++ b/ecgo/builder/finalize.go
@@ -10,8 +10,13 @@ import (
 // and adds public variables to the output.
 func (r *Root) Finalize() *irsource.RootCircuit {
 	res := make(map[uint64]*irsource.Circuit)
-	for x, b := range r.registry.m {
-		res[x] = b.builder.Finalize()
+	// deferred functions may add sub circuits
+	for len(res) < len(r.registry.m) {
+		for x, b := range r.registry.m {
+			if _, ok := res[x]; !ok {
+				res[x] = b.builder.Finalize()
+			}
+		}
 	}
 	return &irsource.RootCircuit{
 		NumPublicInputs:         r.nbPublicInputs,
-- 
2.43.0


From 580e9ebe25d41dc486e5a98dcb658486a83eeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 49/49] fix: an element of GF(2) has one bit

---
 ecgo/field/gf2/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecgo/field/gf2/field.go b/ecgo/field/gf2/field.go
index 48f0395..11a255f 100644
--- a/ecgo/field/gf2/field.go
+++ b/ecgo/field/gf2/field.go
@@ -81,7 +81,7 @@ func (engine *Field) Field() *big.Int {
 }
 
 func (engine *Field) FieldBitLen() int {
-	return 31
+	return 1
 }
 
 func (engine *Field) SerializedLen() int {
-- 
2.43.0

