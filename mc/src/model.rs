//! Reference model of circuits: straight-line programs with module calls, evaluated 64 assignments
//! at a time, and their construction through the public API of the implementation.

use crate::explore::{at_end, imp};
use circuit_converters::*;
use std::collections::HashSet;

pub type Circ = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;
pub type Store = ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Sig {
    In,
    Const(bool),
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Eqv(u32, u32),
    Id(u32),
    /// output `.1` of call `.0`
    Call(u32, u32),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Call {
    pub module: u32,
    pub args: Vec<u32>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Default)]
pub struct Prog {
    pub sigs: Vec<Sig>,
    pub calls: Vec<Call>,
    pub outs: Vec<u32>,
}

/// Module i may call modules below i only.
pub type Lib = Vec<Prog>;

impl Prog {
    pub fn inputs(n: usize) -> Prog {
        Prog { sigs: vec![Sig::In; n], ..Default::default() }
    }
    pub fn n_in(&self) -> usize {
        self.sigs.iter().filter(|s| **s == Sig::In).count()
    }
    pub fn push(&mut self, s: Sig) -> u32 {
        self.sigs.push(s);
        self.sigs.len() as u32 - 1
    }
    pub fn call(&mut self, module: usize, lib: &Lib, args: Vec<u32>) -> Vec<u32> {
        let c = self.calls.len() as u32;
        self.calls.push(Call { module: module as u32, args });
        (0..lib[module].outs.len()).map(|i| self.push(Sig::Call(c, i as u32))).collect()
    }
    pub fn len(&self) -> u32 {
        self.sigs.len() as u32
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, x) in self.sigs.iter().enumerate() {
            if i > 60 {
                s += " …";
                break;
            }
            s += &match x {
                Sig::Call(c, o) => {
                    let k = &self.calls[*c as usize];
                    format!(" s{}=m{}{:?}.{}", i, k.module, k.args, o)
                }
                x => format!(" s{}={:?}", i, x),
            };
        }
        if self.outs.len() > 60 {
            s + &format!(" outs={:?}…({})", &self.outs[..60], self.outs.len())
        } else {
            s + &format!(" outs={:?}", self.outs)
        }
    }
}

/// Values of all signals; lane k of every word is one assignment.
pub fn eval_sigs(lib: &[Prog], p: &Prog, ins: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::with_capacity(p.sigs.len());
    let mut next = 0;
    let mut call_vals: Vec<Option<Vec<u64>>> = vec![None; p.calls.len()];
    for s in &p.sigs {
        let x = match *s {
            Sig::In => {
                next += 1;
                ins[next - 1]
            }
            Sig::Const(b) => {
                if b {
                    !0
                } else {
                    0
                }
            }
            Sig::Not(a) => !v[a as usize],
            Sig::Xor(a, b) => v[a as usize] ^ v[b as usize],
            Sig::And(a, b) => v[a as usize] & v[b as usize],
            Sig::Or(a, b) => v[a as usize] | v[b as usize],
            Sig::Eqv(a, b) => !(v[a as usize] ^ v[b as usize]),
            Sig::Id(a) => v[a as usize],
            Sig::Call(c, o) => {
                let c = c as usize;
                if call_vals[c].is_none() {
                    let k = &p.calls[c];
                    let args: Vec<u64> = k.args.iter().map(|a| v[*a as usize]).collect();
                    let m = &lib[k.module as usize];
                    let sv = eval_sigs(lib, m, &args);
                    call_vals[c] = Some(m.outs.iter().map(|o| sv[*o as usize]).collect());
                }
                call_vals[c].as_ref().unwrap()[o as usize]
            }
        };
        v.push(x);
    }
    v
}

pub fn eval_outs(lib: &[Prog], p: &Prog, ins: &[u64]) -> Vec<u64> {
    let v = eval_sigs(lib, p, ins);
    p.outs.iter().map(|o| v[*o as usize]).collect()
}

/// Lane patterns of all assignments of n <= 6 inputs: bit k of word i is input i of assignment k.
pub fn lanes(n: usize) -> Vec<u64> {
    const P: [u64; 6] = [
        0xAAAA_AAAA_AAAA_AAAA,
        0xCCCC_CCCC_CCCC_CCCC,
        0xF0F0_F0F0_F0F0_F0F0,
        0xFF00_FF00_FF00_FF00,
        0xFFFF_0000_FFFF_0000,
        0xFFFF_FFFF_0000_0000,
    ];
    P[..n].to_vec()
}

pub fn bits(k: u64, n: usize) -> Vec<bool> {
    (0..n).map(|i| k >> i & 1 == 1).collect()
}

pub fn show_bits(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}

#[derive(Clone, Debug)]
pub struct Built {
    pub gates: Vec<GateId>,
}

/// Builds the program with the public builder API. `mids[i]` is the module id of module i.
pub fn build(c: &mut Circ, p: &Prog, mids: &[ModuleId]) -> Result<Built, String> {
    let r = imp("building the circuit", || -> Result<Built, String> {
        let mut g: Vec<GateId> = Vec::with_capacity(p.sigs.len());
        let mut call_outs: Vec<Option<Vec<GateId>>> = vec![None; p.calls.len()];
        for s in &p.sigs {
            let e = |e: BoolCircuitError| format!("building {:?} failed: {}", s, e);
            let x = match *s {
                Sig::In => c.input().map_err(e)?,
                Sig::Const(b) => c.constant(b).map_err(e)?,
                Sig::Not(a) => c.not(&g[a as usize]).map_err(e)?,
                Sig::Xor(a, b) => c.xor(&g[a as usize], &g[b as usize]).map_err(e)?,
                Sig::And(a, b) => c.and(&g[a as usize], &g[b as usize]).map_err(e)?,
                Sig::Or(a, b) => c.or(&g[a as usize], &g[b as usize]).map_err(e)?,
                Sig::Eqv(a, b) => c.equivalent(&g[a as usize], &g[b as usize]).map_err(e)?,
                Sig::Id(a) => c.identity(&g[a as usize]).map_err(e)?,
                Sig::Call(k, o) => {
                    let k = k as usize;
                    if call_outs[k].is_none() {
                        call_outs[k] = Some(do_call(c, p, k, &g, mids)?);
                    }
                    *call_outs[k]
                        .as_ref()
                        .unwrap()
                        .get(o as usize)
                        .ok_or_else(|| format!("call {} returned too few outputs", k))?
                }
            };
            g.push(x);
        }
        for k in 0..p.calls.len() {
            if call_outs[k].is_none() {
                // a module without outputs
                do_call(c, p, k, &g, mids)?;
            }
        }
        for o in &p.outs {
            c.output(g[*o as usize]).map_err(|e| format!("declaring output s{} failed: {}", o, e))?;
        }
        Ok(Built { gates: g })
    })?;
    r
}

fn do_call(c: &mut Circ, p: &Prog, k: usize, g: &[GateId], mids: &[ModuleId]) -> Result<Vec<GateId>, String> {
    let call = &p.calls[k];
    let args: Vec<GateId> = call.args.iter().map(|a| g[*a as usize]).collect();
    c.module(&mids[call.module as usize], &args).map_err(|e| format!("calling module {} failed: {}", call.module, e))
}

/// How the modules of a library come into the storage.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    /// `sub_circuit` of the main circuit, filled in place
    Sub,
    /// built as a circuit of the same storage, then registered
    Register,
    /// a circuit of a storage of its own, with private copies of the modules it calls, then registered
    Foreign,
}

/// A fresh module storage. Circuits and the storage that holds them keep each other alive, so the
/// modules are emptied when the execution is over.
pub fn new_store() -> Store {
    let st = ModuleStorageRef::new();
    let s2 = st.clone();
    at_end(move || {
        for i in 0..s2.num_module() {
            if let Ok(c) = s2.get_module(&ModuleId(i as u64)) {
                *c.borrow_mut() = NXAOBoolCircuit::new(ModuleStorageRef::new());
            }
        }
    });
    st
}

pub fn new_circ() -> Circ {
    NXAOBoolCircuit::new(new_store()).to_ref()
}

pub fn circ_in(st: &Store) -> Circ {
    NXAOBoolCircuit::new(st.clone()).to_ref()
}

/// A circuit over a fresh storage with all modules of the library registered, and the program built.
pub fn build_all(lib: &Lib, p: &Prog, how: How) -> Result<(Circ, Built, Vec<ModuleId>), String> {
    let mut c = new_circ();
    let mids = add_lib(&mut c, lib, how)?;
    let b = build(&mut c, p, &mids)?;
    Ok((c, b, mids))
}

pub fn add_lib(c: &mut Circ, lib: &Lib, how: How) -> Result<Vec<ModuleId>, String> {
    let mut mids: Vec<ModuleId> = vec![];
    for (i, m) in lib.iter().enumerate() {
        let mid = match how {
            How::Sub => {
                let (mid, mut s) = imp("sub_circuit", || c.sub_circuit())?;
                build(&mut s, m, &mids)?;
                mid
            }
            How::Register => {
                let st = c.borrow().module_storage.clone();
                let mut s = NXAOBoolCircuit::new(st).to_ref();
                build(&mut s, m, &mids)?;
                imp("register_module", || c.register_module(&s))?
            }
            How::Foreign => {
                let mut s = new_circ();
                let sub: Lib = lib[..i].to_vec();
                let inner = add_lib(&mut s, &sub, How::Sub)?;
                build(&mut s, m, &inner)?;
                imp("register_module", || c.register_module(&s))?
            }
        };
        if mids.contains(&mid) {
            return Err(format!("module id {} was given twice", mid));
        }
        mids.push(mid);
    }
    Ok(mids)
}

pub fn eval_real(c: &Circ, ins: &[bool]) -> Result<Vec<bool>, String> {
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    eval_with(&mut ev, ins)
}

pub fn eval_with(ev: &mut NXAOBoolEvaluator, ins: &[bool]) -> Result<Vec<bool>, String> {
    match imp("evaluation", || ev.eval_output(ins))? {
        Ok(v) => Ok(v),
        Err(e) => Err(format!("evaluation failed: {}", e)),
    }
}

/// Evaluates the circuit on all assignments (n <= 6) and compares with the model's outputs.
pub fn check_all(c: &Circ, n: usize, want: &[u64], what: &str) -> Result<u64, String> {
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for k in 0..1u64 << n {
        let ins = bits(k, n);
        let got = eval_with(&mut ev, &ins).map_err(|e| format!("{}: on inputs {}: {}", what, show_bits(&ins), e))?;
        compare(&ins, &got, want, k as u32, what)?;
    }
    Ok(1 << n)
}

pub fn compare(ins: &[bool], got: &[bool], want: &[u64], lane: u32, what: &str) -> Result<(), String> {
    let w: Vec<bool> = want.iter().map(|x| x >> lane & 1 == 1).collect();
    if got != &w[..] {
        return Err(format!(
            "{}: on inputs {} the outputs are {}, expected {}",
            what,
            clip(&show_bits(ins)),
            clip(&show_bits(got)),
            clip(&show_bits(&w))
        ));
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.len() > 300 {
        format!("{}…({} bits)", &s[..300], s.len())
    } else {
        s.to_string()
    }
}

/// Gates created by one building operation: everything reachable from `roots` that was not known before.
pub fn reachable_new(c: &Circ, roots: &[GateId], known: &dyn Fn(&GateId) -> bool) -> Result<Vec<GateId>, String> {
    let mut seen: HashSet<GateId> = HashSet::new();
    let mut todo: Vec<GateId> = roots.to_vec();
    let mut out = vec![];
    while let Some(g) = todo.pop() {
        if known(&g) || !seen.insert(g) {
            continue;
        }
        out.push(g);
        let gate = imp("get_gate", || c.get_gate(&g))?.map_err(|e| format!("get_gate of a returned gate failed: {}", e))?;
        todo.extend(operands(&gate));
    }
    Ok(out)
}

pub fn operands(g: &NXAOBoolGate) -> Vec<GateId> {
    match g {
        NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => vec![],
        NXAOBoolGate::Not(x) => vec![x.id],
        NXAOBoolGate::Xor(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::And(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::Or(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::Module(x) => x.input_ids.clone(),
    }
}
