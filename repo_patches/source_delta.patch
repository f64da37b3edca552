From 18611b8cf6081f0e237cd3b21dd9e0c13865a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 01/16] fix: keep evaluated bits that an output wire still
 needs

The evaluator released a bit once all gates reading it were evaluated, although
an output declared later may still read it: outputs [not(a), a] failed with
UnknownEvaledBit. Count each output wire as a use of its gate.
---
 src/evaluator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..62f17eb 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -36,6 +36,11 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut outputs = Vec::new();
         let mut evaled_map = HashMap::<GateId, bool>::new();
         let mut num_depend_map = HashMap::<GateId, usize>::new();
+        // Each output wire is one use of its gate, so that its bit is kept until it is read.
+        for i in 0..output_len {
+            let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(output_gate_id).or_insert(0) += 1;
+        }
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
         assert_eq!(inputs.len(), circuit.input_len());
@@ -44,7 +49,7 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             match gate_id {
                 Some(id) => {
                     evaled_map.insert(id, inputs[i]);
-                    num_depend_map.insert(id, circuit.get_depended_gates(&id)?.len());
+                    *num_depend_map.entry(id).or_insert(0) += circuit.get_depended_gates(&id)?.len();
                     i += 1;
                 }
                 None => {}
@@ -119,7 +124,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +143,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +173,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +203,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +233,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +265,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 70987dcfcffc10036cd89f2e535b75405b18bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 02/16] fix: calling a module that outputs its own inputs no
 longer underflows

A module whose outputs are inputs or repeated gates has fewer wires than inputs
plus outputs, and the wire counter subtraction panicked.
---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..8982966 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The outputs of the call are wires of the module, which are counted above.
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 4b62b620017beb63fd910a39cef3d9d2f9df5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 03/16] fix: reject operands that are not gates of the circuit

not, xor, and, or and module accepted unknown gate ids; a gate reading its own
id made evaluation recurse until the stack overflowed.
---
 src/bool_circuit.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 8982966..e54d908 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -514,6 +514,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn not(&mut self, gate_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gates(&[*gate_id])?;
         let not_gate = NotGate { id: *gate_id };
         let new_gate_id = self.add_gate(NXAOBoolGate::Not(not_gate));
         self.add_dependence(gate_id, &new_gate_id)?;
@@ -522,6 +523,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn xor(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gates(&[*gate_l_id, *gate_r_id])?;
         let xor_gate = XorGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -534,6 +536,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn and(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gates(&[*gate_l_id, *gate_r_id])?;
         let and_gate = AndGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -546,6 +549,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn or(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gates(&[*gate_l_id, *gate_r_id])?;
         let or_gate = OrGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -588,6 +592,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         gate_ids: &[GateId],
     ) -> Result<Vec<GateId>, BoolCircuitError> {
         let module_circuit = self.get_module(module_id)?;
+        self.check_gates(gate_ids)?;
         let input_len = module_circuit.input_len();
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
@@ -689,6 +694,15 @@ impl NXAOBoolCircuit {
         gate_id
     }
 
+    fn check_gates(&self, gate_ids: &[GateId]) -> Result<(), BoolCircuitError> {
+        for gate_id in gate_ids {
+            if !self.gate_map.contains_key(gate_id) {
+                return Err(BoolCircuitError::UnknownGate(*gate_id));
+            }
+        }
+        Ok(())
+    }
+
     fn add_dependence(
         &mut self,
         input_id: &GateId,
-- 
2.43.0


From 055c6f5bb63f4540f1c196f29a8f9ed68bc842d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 04/16] fix: report a wrong number of inputs or arguments as an
 error

eval_output panicked instead of returning InvalidInputLen, and a module call
with a wrong number of arguments was accepted, which panicked on evaluation and
exported wires that nothing defines.
---
 src/bool_circuit.rs | 3 +++
 src/evaluator.rs    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index e54d908..668d504 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -594,6 +594,9 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let module_circuit = self.get_module(module_id)?;
         self.check_gates(gate_ids)?;
         let input_len = module_circuit.input_len();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputGate);
+        }
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
diff --git a/src/evaluator.rs b/src/evaluator.rs
index 62f17eb..eddaa4d 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -32,6 +32,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
 
     fn eval_output(&mut self, inputs: &[bool]) -> Result<Vec<bool>, EvaluatorError> {
         let circuit = self.circuit();
+        if inputs.len() != circuit.input_len() {
+            return Err(EvaluatorError::InvalidInputLen(
+                inputs.len(),
+                circuit.input_len(),
+            ));
+        }
         let output_len = circuit.output_len();
         let mut outputs = Vec::new();
         let mut evaled_map = HashMap::<GateId, bool>::new();
@@ -43,7 +49,6 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         }
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
-        assert_eq!(inputs.len(), circuit.input_len());
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
-- 
2.43.0


From dc354ccb232759e0aad410be8aebe2b569719151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 05/16] fix: circuits calling different modules no longer
 compare equal

Equality compared module ids but not the modules they name, so circuits from
two storages compared equal although they compute different functions.
---
 src/bool_circuit.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 668d504..88679ab 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -1,6 +1,6 @@
 use crate::gates::*;
 use std::cell::{Ref, RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::marker::PhantomData;
 use std::rc::Rc;
 use thiserror::Error;
@@ -666,6 +666,7 @@ impl PartialEq for NXAOBoolCircuit {
             && self.num_wire == other.num_wire
             && self.num_gate == other.num_gate
             && self.gate_index == other.gate_index
+            && self.called_modules_eq(other)
     }
 }
 
@@ -697,6 +698,24 @@ impl NXAOBoolCircuit {
         gate_id
     }
 
+    // The same module id names different modules in different storages.
+    fn called_modules_eq(&self, other: &Self) -> bool {
+        let module_ids = self
+            .gate_map
+            .values()
+            .filter_map(|gate| match gate {
+                NXAOBoolGate::Module(g) => Some(g.module_id),
+                _ => None,
+            })
+            .collect::<HashSet<ModuleId>>();
+        module_ids
+            .iter()
+            .all(|id| match (self.get_module(id), other.get_module(id)) {
+                (Ok(l), Ok(r)) => l == r,
+                _ => false,
+            })
+    }
+
     fn check_gates(&self, gate_ids: &[GateId]) -> Result<(), BoolCircuitError> {
         for gate_id in gate_ids {
             if !self.gate_map.contains_key(gate_id) {
-- 
2.43.0


From 068005438cb2291664adf19fb9ec1deaf556d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 06/16] fix: export files whose header, outputs and constants
 are right

The header counted constants twice and counted gates that are never written, so
no circuit with a constant or a dead gate could be read back; outputs were not
the last wires when an output was an input, a constant, read by another output,
declared twice or came from a second module; constants of unused module calls
were missing from the returned values; and a second write went on with the wire
numbers of the first. Write the gate lines first to count them, and copy the
outputs to the end with EQW where needed.
---
 src/bristol_converter.rs | 67 ++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..b0d55bc 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -177,6 +177,7 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    gate_lines: Vec<u8>,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -186,6 +187,7 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            gate_lines: Vec::new(),
         }
     }
 
@@ -197,22 +199,10 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
+        self.num_wire = 0;
+        self.gate_lines.clear();
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
@@ -237,9 +227,25 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        self.write_output_copies(wire_of_gate)?;
+
+        let first_line = format!("{} {}\n", self.num_wire - num_all_input, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        self.writer.write_all(&self.gate_lines)?;
+
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
-            const_vals.push(const_of_wire[&wire]);
+        for wire in input_len..num_all_input {
+            // Constants of module calls that no output needs have no value.
+            const_vals.push(const_of_wire.get(&wire).copied().unwrap_or(false));
         }
         Ok(const_vals)
     }
@@ -361,6 +367,33 @@ impl<W: Write> BristolNXAOWriter<W> {
         Ok(())
     }
 
+    // The outputs must be the last wires, in order. Copy them there if they are not.
+    fn write_output_copies(
+        &mut self,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Result<(), BristolError> {
+        let output_len = self.c_ref.output_len();
+        let mut output_wires = Vec::with_capacity(output_len);
+        for i in 0..output_len {
+            let gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&gate_id]);
+        }
+        if output_len <= self.num_wire
+            && output_wires
+                .iter()
+                .copied()
+                .eq((self.num_wire - output_len)..self.num_wire)
+        {
+            return Ok(());
+        }
+        for wire in output_wires {
+            let line = format!("1 1 {} {} EQW\n", wire, self.num_wire);
+            self.gate_lines.extend_from_slice(line.as_bytes());
+            self.num_wire += 1;
+        }
+        Ok(())
+    }
+
     fn write_single_gate(
         &mut self,
         gate_id: &GateId,
@@ -544,7 +577,7 @@ impl<W: Write> BristolNXAOWriter<W> {
                     write_str = write_str + &format!("{} ", wires[i]);
                 }
                 write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
+                self.gate_lines.extend_from_slice(write_str.as_bytes());
             }
             None => {}
         };
-- 
2.43.0


From 46bf7b5277fa429262d6e07ebf452034adc3a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 07/16] fix: EQ in a Bristol file assigns a constant

Bristol Fashion defines 'EQ' as assigning the literal 0 or 1 to a wire and
'EQW' as copying a wire; the reader took the literal of EQ for a wire number.
---
 src/bristol_converter.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index b0d55bc..3e22ef8 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -114,17 +114,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_values = Vec::new();
             for _ in 0..input_len {
-                let wire_id = l
+                let input_value = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_values.push(input_value);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -136,6 +132,24 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
 
+            // EQ assigns the literal 0 or 1, the operands of the other gates are wires.
+            if gate_type == "EQ" {
+                let output_gate = match input_values[0] {
+                    0 => c_ref.constant(false)?,
+                    1 => c_ref.constant(true)?,
+                    _ => return Err(BristolError::LineSplitError),
+                };
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_values {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
             match gate_type {
                 "INV" => {
                     let output_gate = c_ref.not(input_gates[0])?;
@@ -153,7 +167,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From a8d12fe599996d1cb1595fceacd52d5afcc8ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 08/16] fix: report malformed and truncated Bristol files as
 errors

A missing operand, an undefined output wire (as in any truncated file) and a
header with more outputs than wires panicked, and surplus operands were
silently dropped.
---
 src/bristol_converter.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 3e22ef8..f8cdf19 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -95,7 +95,9 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = output_bit
+                .checked_add(output_len_sum)
+                .ok_or(BristolError::LineSplitError)?;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
@@ -132,6 +134,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
 
+            let num_operand = match gate_type {
+                "INV" | "EQ" | "EQW" => 1,
+                "XOR" | "AND" | "OR" => 2,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != num_operand || output_len != 1 {
+                return Err(BristolError::LineSplitError);
+            }
+
             // EQ assigns the literal 0 or 1, the operands of the other gates are wires.
             if gate_type == "EQ" {
                 let output_gate = match input_values[0] {
@@ -175,9 +186,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        let first_output_wire = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::LineSplitError)?;
+        for i in first_output_wire..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From 223f557ab7858b259ad7817966ed3c99d3469869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 09/16] fix: a Bristol reader forgets the wires of the previous
 file

A second file that uses a wire it does not define was read with gate ids of the
circuit read before instead of being rejected.
---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index f8cdf19..21bfc88 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 89fb734e71eb55aef9f88a2f41ca58df9a5c49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 10/16] fix: an I/O error in the fourth line of a Bristol file
 is reported

---
 src/bristol_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 21bfc88..31793bb 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -101,7 +101,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .ok_or(BristolError::LineSplitError)?;
         }
         //skip one row.
-        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
+        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
         for result in lines_iter {
             let l = result?;
-- 
2.43.0


From 62c097c496b00322d8eb5ded6e192525bf93ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 11/16] fix: integer constants accept every value below 2^N

from_biguint counted whole bytes, so a width that is not a multiple of eight
rejected values that fit (any value for N < 8).
---
 src/circuits/arithmetic/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..e5c252f 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -44,7 +44,8 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        bits_le.truncate(val.bits() as usize);
         assert!(bits_le.len() <= N);
 
         let mut val_le = Vec::new();
-- 
2.43.0


From f308ae44c274a1488ed9150c61966b16c5385ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 12/16] fix: integer comparisons are right when the difference
 overflows

less (and with it less_or_eq, larger and larger_or_eq) took the sign of a - b,
which is wrong for operands of opposite sign whose difference does not fit:
100 < -100 held for 8-bit integers.
---
 src/circuits/arithmetic/int.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index e5c252f..fba8d4b 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -484,8 +484,14 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
 
     let inputs = [a_inputs, b_inputs].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    // a - b cannot overflow if the signs agree, and otherwise the sign of a decides.
+    let a_sign = inputs[n_bits - 1];
+    let b_sign = inputs[2 * n_bits - 1];
+    let is_sign_diff = sub_ref.xor(&a_sign, &b_sign)?;
+    let is_sign_same = sub_ref.not(&is_sign_diff)?;
+    let less_if_diff = sub_ref.and(&is_sign_diff, &a_sign)?;
+    let less_if_same = sub_ref.and(&is_sign_same, &sub[n_bits - 1])?;
+    let is_less = sub_ref.or(&less_if_diff, &less_if_same)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From 13f0b859e277f3f8c1beaa072ad94753f4d57c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 13/16] fix: shifts by more than the width give an integer of
 the right width

shift_left by more than N returned more than N bits, which later operations
took for operands of the wrong width, and shift_right by more than N panicked.
---
 src/circuits/arithmetic/int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index fba8d4b..0ca0e65 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -131,6 +131,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     pub fn shift_left(&self, shift_bits: usize) -> Result<Self, BuildCircuitError> {
         let mut config = self.config.clone();
         let new_ref = &mut config.c_ref;
+        let shift_bits = shift_bits.min(N);
         let mut new_val_le = Vec::new();
         for _ in 0..shift_bits {
             new_val_le.push(new_ref.constant(false)?);
@@ -148,6 +149,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     pub fn shift_right(&self, shift_bits: usize) -> Result<Self, BuildCircuitError> {
         let config = self.config.clone();
         let mut new_val_le = Vec::new();
+        let shift_bits = shift_bits.min(N);
         let sign_bit = self.val_le[N - 1];
         for i in 0..(N - shift_bits) {
             new_val_le.push(self.val_le[i + shift_bits]);
-- 
2.43.0


From 08346ced395c668ab0554942e217a03560cd4d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 14/16] fix: field sums equal to the modulus are reduced to 0

a + b with a + b = p gave p instead of 0, so a + (-a) was not equal to zero.
---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From dc2175e041671bdc518ab9d8c0700c3cde06cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 15/16] fix: Montgomery reduction no longer negates results
 below p

The two alternatives of the final conditional subtraction were subtracted
instead of added, so every result that needed no subtraction was negated.
---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 4c1ea57..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0


From 11f9e56d6802ea9a91f7212c0f0d2a849520bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 16/16] fix: exports of circuits that call a module which
 gained constants after the call were ill-formed

---
 src/bristol_converter.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 31793bb..c605aac 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -227,10 +227,19 @@ impl<W: Write> BristolNXAOWriter<W> {
         &mut self,
         num_first_input: usize,
         wire_of_gate: Option<&mut HashMap<GateId, usize>>,
+    ) -> Result<Vec<bool>, BristolError> {
+        let num_const = self.c_ref.num_const();
+        self.write_with_consts(num_first_input, num_const, wire_of_gate)
+    }
+
+    fn write_with_consts(
+        &mut self,
+        num_first_input: usize,
+        num_const: usize,
+        wire_of_gate: Option<&mut HashMap<GateId, usize>>,
     ) -> Result<Vec<bool>, BristolError> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
-        let num_const = self.c_ref.num_const();
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
         self.num_wire = 0;
@@ -241,6 +250,7 @@ impl<W: Write> BristolNXAOWriter<W> {
             Some(m) => m,
             None => &mut new_wire_of_gate,
         };
+        let given_wire_of_gate = wire_of_gate.clone();
         let mut const_of_wire = HashMap::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
@@ -259,6 +269,12 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        if self.last_const_wire > num_all_input {
+            // A module extended after a call has more constants than the call counted.
+            *wire_of_gate = given_wire_of_gate;
+            let num_const = self.last_const_wire - input_len;
+            return self.write_with_consts(num_first_input, num_const, Some(wire_of_gate));
+        }
         self.write_output_copies(wire_of_gate)?;
 
         let first_line = format!("{} {}\n", self.num_wire - num_all_input, self.num_wire);
-- 
2.43.0

