//! The flattened netlist a circuit denotes, extracted through the public queries (get_gate,
//! get_module, output_to_gate_id, ...), and its bit-parallel execution.

use crate::bdd::{Bdd, Cap};
use crate::explore::imp;
use crate::model::*;
use circuit_converters::*;
use rustc_hash::FxHashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum G {
    Const(bool),
    In(u32),
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
}

#[derive(Clone, Debug, Default)]
pub struct Net {
    pub n_in: usize,
    pub g: Vec<G>,
    pub outs: Vec<u32>,
}

impl Net {
    pub fn extract(c: &Circ) -> Result<Net, String> {
        imp("reading the circuit through its queries", || -> Result<Net, String> {
            let n_in = c.input_len();
            let mut net = Net { n_in, g: (0..n_in as u32).map(G::In).collect(), outs: vec![] };
            let ins: Vec<u32> = (0..n_in as u32).collect();
            net.outs = net.scope(c, &ins)?;
            Ok(net)
        })?
    }

    fn push(&mut self, g: G) -> u32 {
        self.g.push(g);
        self.g.len() as u32 - 1
    }

    /// outputs of circuit c applied to the given nodes
    fn scope(&mut self, c: &Circ, ins: &[u32]) -> Result<Vec<u32>, String> {
        let e = |e: BoolCircuitError| format!("query failed: {}", e);
        let mut m: FxHashMap<u64, u32> = FxHashMap::default();
        let mut calls: FxHashMap<(u64, Vec<u64>), Vec<u32>> = FxHashMap::default();
        if c.input_len() != ins.len() {
            return Err("a call has the wrong number of arguments".into());
        }
        for (i, x) in ins.iter().enumerate() {
            let g = c.input_to_gate_id(&WireId(i as u64)).map_err(e)?.ok_or("input without a gate")?;
            m.insert(g.0, *x);
        }
        let mut res = vec![];
        for i in 0..c.output_len() {
            let root = c.output_to_gate_id(&WireId(i as u64)).map_err(e)?;
            let mut todo = vec![root];
            while let Some(&g) = todo.last() {
                if m.contains_key(&g.0) {
                    todo.pop();
                    continue;
                }
                let gate = c.get_gate(&g).map_err(e)?;
                let ops = operands(&gate);
                let missing: Vec<GateId> = ops.iter().copied().filter(|o| !m.contains_key(&o.0)).collect();
                if !missing.is_empty() {
                    if todo.len() > 10_000_000 {
                        return Err("the gates form a cycle".into());
                    }
                    todo.extend(missing.into_iter().rev());
                    continue;
                }
                let at = |o: &GateId| m[&o.0];
                let node = match &gate {
                    NXAOBoolGate::Input(_) => return Err("an input gate that is no input".into()),
                    NXAOBoolGate::Const(k) => self.push(G::Const(k.value)),
                    NXAOBoolGate::Not(x) => self.push(G::Not(at(&x.id))),
                    NXAOBoolGate::Xor(x) => self.push(G::Xor(at(&x.left_id), at(&x.right_id))),
                    NXAOBoolGate::And(x) => self.push(G::And(at(&x.left_id), at(&x.right_id))),
                    NXAOBoolGate::Or(x) => self.push(G::Or(at(&x.left_id), at(&x.right_id))),
                    NXAOBoolGate::Module(x) => {
                        let key = (x.module_id.0, x.input_ids.iter().map(|i| i.0).collect::<Vec<_>>());
                        if !calls.contains_key(&key) {
                            let args: Vec<u32> = x.input_ids.iter().map(at).collect();
                            let sub = c.get_module(&x.module_id).map_err(e)?;
                            let outs = self.scope(&sub, &args)?;
                            calls.insert(key.clone(), outs);
                        }
                        *calls[&key].get(x.out_index).ok_or("a call output that the module lacks")?
                    }
                };
                m.insert(g.0, node);
                todo.pop();
            }
            res.push(m[&root.0]);
        }
        Ok(res)
    }

    /// Runs W*64 assignments at once; `ins[i]` holds input i.
    pub fn sim<const W: usize>(&self, ins: &[[u64; W]], v: &mut Vec<[u64; W]>) {
        v.clear();
        v.reserve(self.g.len());
        for g in &self.g {
            let mut r = [0u64; W];
            match *g {
                G::Const(b) => {
                    if b {
                        r = [!0; W]
                    }
                }
                G::In(i) => r = ins[i as usize],
                G::Not(a) => {
                    let a = &v[a as usize];
                    for k in 0..W {
                        r[k] = !a[k];
                    }
                }
                G::Xor(a, b) => {
                    let (a, b) = (&v[a as usize], &v[b as usize]);
                    for k in 0..W {
                        r[k] = a[k] ^ b[k];
                    }
                }
                G::And(a, b) => {
                    let (a, b) = (&v[a as usize], &v[b as usize]);
                    for k in 0..W {
                        r[k] = a[k] & b[k];
                    }
                }
                G::Or(a, b) => {
                    let (a, b) = (&v[a as usize], &v[b as usize]);
                    for k in 0..W {
                        r[k] = a[k] | b[k];
                    }
                }
            }
            v.push(r);
        }
    }

    /// outputs on up to 64 explicit assignments (each a bit vector)
    pub fn run(&self, vecs: &[Vec<bool>]) -> Vec<Vec<bool>> {
        let mut res = Vec::with_capacity(vecs.len());
        let mut v = vec![];
        for chunk in vecs.chunks(64) {
            let mut ins = vec![[0u64; 1]; self.n_in];
            for (k, a) in chunk.iter().enumerate() {
                for (i, b) in a.iter().enumerate() {
                    if *b {
                        ins[i][0] |= 1 << k;
                    }
                }
            }
            self.sim(&ins, &mut v);
            for k in 0..chunk.len() {
                res.push(self.outs.iter().map(|o| v[*o as usize][0] >> k & 1 == 1).collect());
            }
        }
        res
    }

    /// BDDs of the outputs; `var[i]` is the BDD of input i.
    pub fn bdds(&self, b: &mut Bdd, var: &[u32]) -> Result<Vec<u32>, Cap> {
        // only the cone of the outputs
        let mut need = vec![false; self.g.len()];
        for o in &self.outs {
            need[*o as usize] = true;
        }
        for i in (0..self.g.len()).rev() {
            if need[i] {
                match self.g[i] {
                    G::Not(a) => need[a as usize] = true,
                    G::Xor(a, c) | G::And(a, c) | G::Or(a, c) => {
                        need[a as usize] = true;
                        need[c as usize] = true;
                    }
                    _ => {}
                }
            }
        }
        let mut v = vec![0u32; self.g.len()];
        for i in 0..self.g.len() {
            if !need[i] {
                continue;
            }
            v[i] = match self.g[i] {
                G::Const(x) => x as u32,
                G::In(k) => var[k as usize],
                G::Not(a) => b.not(v[a as usize])?,
                G::Xor(a, c) => b.xor(v[a as usize], v[c as usize])?,
                G::And(a, c) => b.and(v[a as usize], v[c as usize])?,
                G::Or(a, c) => b.or(v[a as usize], v[c as usize])?,
            };
        }
        Ok(self.outs.iter().map(|o| v[*o as usize]).collect())
    }
}
