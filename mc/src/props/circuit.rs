//! C01-C07, C25: circuits, evaluation, modules, queries, equality.

use super::families::*;
use super::gen::*;
use crate::explore::*;
use crate::model::*;

fn run_prog(ch: &mut Ch, lib: &Lib, p: &Prog, how: How) -> R {
    ch.say(|| format!("modules: {:?} ({:?})", lib.iter().map(|m| m.show()).collect::<Vec<_>>(), how));
    ch.say(|| format!("circuit: {}", p.show()));
    let (c, _, _) = build_all(lib, p, how)?;
    let n = p.n_in();
    let want = eval_outs(lib, p, &lanes(n));
    ch.outcome(&(n, want.iter().map(|w| w & mask(n)).collect::<Vec<_>>()));
    let k = check_all(&c, n, &want, "evaluation").map_err(|e| format!("{}\n  circuit: {}", e, p.show()))?;
    ch.evals(k);
    ch.say(|| format!("all {} assignments agree; output columns {:x?}", k, want.iter().map(|w| w & mask(n)).collect::<Vec<_>>()));
    Ok(())
}

pub fn mask(n: usize) -> u64 {
    if n >= 6 {
        !0
    } else {
        (1u64 << (1u64 << n)) - 1
    }
}

fn run_family(ch: &mut Ch, f: &Fam, n: usize, how: How) -> R {
    let (lib, p) = (f.make)(n);
    ch.state(&(f.name, n));
    ch.say(|| format!("{}({}): {} signals, {} inputs, {} outputs", f.name, n, p.sigs.len(), p.n_in(), p.outs.len()));
    let (c, _, _) = build_all(&lib, &p, how)?;
    let vecs = vectors(p.n_in());
    let want = eval_outs(&lib, &p, &to_lanes(p.n_in(), &vecs));
    let mut ev = circuit_converters::NXAOBoolEvaluator::new(c);
    for (k, v) in vecs.iter().enumerate() {
        let got = eval_with(&mut ev, v).map_err(|e| format!("{}({}): {}", f.name, n, e))?;
        compare(v, &got, &want, k as u32, &format!("{}({})", f.name, n))?;
    }
    ch.evals(vecs.len() as u64);
    ch.add_states(vecs.len() as u64);
    ch.outcome(&(f.name, n));
    Ok(())
}

pub fn fam_suite(name: &str, fams: &'static [Fam], dense: usize, body: fn(&mut Ch, &Fam, usize) -> R) -> Suite {
    suite(
        name,
        &format!("scaling families {:?}, every size up to {} and the sizes around 64, 100, 128, ..., 65536 that the family allows; assignments: all for 3 inputs or fewer, else at most one bit away from all-0/all-1 at the edges, and alternating", fams.iter().map(|f| f.name).collect::<Vec<_>>(), dense),
        move |ch| {
            // the largest circuits first: they are the longest to run
            let mut all: Vec<(usize, usize)> = vec![];
            for (i, f) in fams.iter().enumerate() {
                for n in sizes(f.max, dense) {
                    all.push((i, n));
                }
            }
            all.sort_by_key(|x| x.1);
            let (i, n) = ch.pick(&all);
            body(ch, &fams[i], n)
        },
    )
}

pub fn c01(th: bool) -> Vec<Suite> {
    let full = move |ch: &mut Ch| {
        // (inputs, gates, longest output list)
        let shapes: &[(usize, usize, usize)] = if th {
            &[(0, 0, 0), (1, 0, 3), (2, 0, 3), (3, 0, 3), (0, 1, 3), (0, 2, 3), (0, 3, 3), (0, 4, 2), (1, 1, 3), (1, 2, 3), (1, 3, 3), (1, 4, 1), (2, 1, 3), (2, 2, 3), (2, 3, 2), (3, 1, 3), (3, 2, 3), (3, 3, 1)]
        } else {
            &[(0, 0, 0), (1, 0, 3), (2, 0, 3), (3, 0, 3), (0, 1, 3), (0, 2, 3), (0, 3, 2), (1, 1, 3), (1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 2, 3), (2, 3, 1), (3, 1, 3), (3, 2, 2)]
        };
        let (n, g, o) = ch.pick(shapes);
        let mut p = gen_prog(ch, n, g, FULL, true);
        gen_outs(ch, &mut p, o);
        run_prog(ch, &vec![], &p, How::Sub)
    };
    let shared = move |ch: &mut Ch| {
        let shapes: &[(usize, usize)] = if th { &[(1, 4), (2, 4), (3, 4), (1, 5), (2, 5)] } else { &[(1, 4), (2, 4)] };
        let (n, g) = ch.pick(shapes);
        let mut p = gen_prog(ch, n, g, NAX, false);
        // the last gate, alone or before or after any other signal
        let last = p.len() - 1;
        match ch.choose(3) {
            0 => p.outs = vec![last],
            1 => p.outs = vec![last, ch.choose(last as usize + 1) as u32],
            _ => p.outs = vec![ch.choose(last as usize + 1) as u32, last],
        }
        run_prog(ch, &vec![], &p, How::Sub)
    };
    let outs = move |ch: &mut Ch| {
        // two dense circuits, all output lists up to a length
        let mut p = Prog::inputs(3);
        if ch.flip() {
            for s in [Sig::Xor(0, 1), Sig::And(3, 2), Sig::Not(4), Sig::Or(3, 5), Sig::Const(true), Sig::Xor(7, 6), Sig::Id(8)] {
                p.push(s);
            }
        } else {
            for s in [Sig::Const(false), Sig::Eqv(2, 0), Sig::Or(4, 4), Sig::And(5, 1), Sig::Not(6), Sig::Xor(6, 5), Sig::And(7, 8)] {
                p.push(s);
            }
        }
        gen_outs(ch, &mut p, if th { 5 } else { 4 });
        run_prog(ch, &vec![], &p, How::Sub)
    };
    vec![
        suite("programs", "all straight-line circuits over NOT, XOR, AND, OR, constants, equivalence, identity with all ordered operands (up to 3 inputs and 3 gates, 4 in thorough), all output lists up to 3 entries, all assignments; oracle: the model's value", full),
        suite("sharing", "all circuits of 4 (thorough 5) NOT/AND/XOR gates over 1-3 inputs, the last gate an output alone or with any other signal, all assignments; oracle: the model's value", shared),
        suite("output lists", "two circuits with 3 inputs and 7 gates, all output lists up to 4 (5) entries, all assignments", outs),
        fam_suite("families", PLAIN, if th { 300 } else { 140 }, |ch, f, n| run_family(ch, f, n, How::Sub)),
    ]
}

// ---------------------------------------------------------------- C02

/// A module body: up to `g` gates and a nonempty output list.
fn gen_module(ch: &mut Ch, max_in: usize, max_g: usize, ops: &[K], max_out: usize) -> Prog {
    let n = max_in - ch.choose(max_in + 1);
    let g = ch.choose(max_g + 1);
    let mut m = gen_prog(ch, n, g, ops, false);
    if m.sigs.is_empty() {
        m.push(Sig::Const(ch.flip()));
    }
    let k = 1 + ch.choose(max_out);
    for _ in 0..k {
        let o = ch.choose(m.sigs.len());
        m.outs.push((m.sigs.len() - 1 - o) as u32);
    }
    m
}

fn gen_args(ch: &mut Ch, p: &Prog, k: usize) -> Vec<u32> {
    (0..k).map(|i| {
        // default: distinct arguments in order
        let n = p.sigs.len();
        ((ch.choose(n) + i) % n) as u32
    }).collect()
}

pub const HOWS: &[How] = &[How::Sub, How::Register, How::Foreign];

/// A fixed list of module bodies with every kind of output.
pub fn zoo() -> Lib {
    let mut v = vec![];
    // swap
    v.push(Prog { outs: vec![1, 0], ..Prog::inputs(2) });
    // x, x^y, x again
    let mut p = Prog::inputs(2);
    let x = p.push(Sig::Xor(0, 1));
    p.outs = vec![0, x, 0];
    v.push(p);
    // !x with a constant beside it
    let mut p = Prog::inputs(1);
    let x = p.push(Sig::Not(0));
    let c = p.push(Sig::Const(true));
    p.outs = vec![c, x];
    v.push(p);
    // x & !y, shared gate twice
    let mut p = Prog::inputs(2);
    let a = p.push(Sig::Not(1));
    let b = p.push(Sig::And(0, a));
    p.outs = vec![b, a, b];
    v.push(p);
    // no input
    let mut p = Prog::inputs(0);
    let a = p.push(Sig::Const(true));
    let b = p.push(Sig::Not(a));
    p.outs = vec![b];
    v.push(p);
    // three inputs, the middle one unused, a dead gate
    let mut p = Prog::inputs(3);
    let a = p.push(Sig::Or(2, 0));
    p.push(Sig::And(1, a));
    p.outs = vec![a];
    v.push(p);
    v
}

/// Main circuits: calls of any modules of the library, one gate, outputs.
pub fn gen_main(ch: &mut Ch, lib: &Lib, n_in: usize, calls: usize, which: &[usize], gate: bool, outs: usize) -> Prog {
    let mut p = Prog::inputs(n_in);
    for _ in 0..calls {
        let m = ch.pick(which);
        let args = gen_args(ch, &p, lib[m].n_in());
        p.call(m, lib, args);
    }
    if gate && ch.flip() {
        gen_gate(ch, &mut p, NX, false);
    }
    if outs == 0 || ch.flip() {
        p.outs = (0..p.len()).rev().collect();
    } else {
        let k = 1 + ch.choose(outs);
        for _ in 0..k {
            let n = p.sigs.len();
            let o = ch.choose(n);
            p.outs.push((n - 1 - o) as u32);
        }
    }
    p
}

pub fn c02(th: bool) -> Vec<Suite> {
    let bodies = move |ch: &mut Ch| {
        let m = gen_module(ch, 2, 2, NAXC, 2);
        let lib = vec![m];
        let calls = 1 + ch.choose(2);
        let p = gen_main(ch, &lib, 2, calls, &[0], false, if th { 2 } else { 1 });
        run_prog(ch, &lib, &p, How::Sub)
    };
    let mains = move |ch: &mut Ch| {
        let lib = zoo();
        let how = ch.pick(HOWS);
        let n_in = 1 + ch.choose(2);
        let calls = 1 + ch.choose(2);
        let p = gen_main(ch, &lib, n_in, calls, &[0, 1, 2, 3, 4, 5], true, if th { 2 } else { 1 });
        run_prog(ch, &lib, &p, how)
    };
    let nest = move |ch: &mut Ch| {
        // zoo module inside a module inside a module, each level with a call, a gate, a twist of outputs
        let mut lib = zoo();
        let depth = 1 + ch.choose(2);
        let how = ch.pick(HOWS);
        let mut inner: usize = ch.choose(lib.len());
        for _ in 0..depth {
            let mut m = Prog::inputs(2);
            let rev = ch.flip();
            let k = lib[inner].n_in();
            let args: Vec<u32> = (0..k).map(|i| if rev { (k - 1 - i) as u32 % 2 } else { i as u32 % 2 }).collect();
            let o = m.call(inner, &lib, args);
            if ch.flip() {
                let k = lib[inner].n_in();
                let last = *o.last().unwrap();
                m.call(inner, &lib, vec![last; k]);
            }
            let last = m.len() - 1;
            let g = match ch.choose(3) {
                0 => m.push(Sig::Not(last)),
                1 => m.push(Sig::Xor(last, 0)),
                _ => last,
            };
            m.outs = match ch.choose(3) {
                0 => vec![g],
                1 => vec![1, g],
                _ => vec![g, o[0], 0],
            };
            lib.push(m);
            inner = lib.len() - 1;
        }
        let outs = if th { 2 } else { 1 };
        let calls = 1 + if th || depth == 1 { ch.choose(2) } else { 0 };
        let p = gen_main(ch, &lib, 2, calls, &[inner], false, outs);
        run_prog(ch, &lib, &p, how)
    };
    let wide = move |ch: &mut Ch| {
        // a module of many inputs called twice, with arguments that differ at two positions only
        let n: usize = ch.pick(if th { &[65, 70, 129, 200] } else { &[70, 129] });
        let mut m = Prog::inputs(n);
        for i in 0..n as u32 {
            if i % 3 == 0 {
                let z = m.push(Sig::Not(i));
                m.outs.push(z);
            } else {
                m.outs.push(i);
            }
        }
        let lib = vec![m];
        let i = ch.choose(n - 1);
        let j = i + 1 + ch.choose(n - 1 - i);
        let swap = ch.flip();
        let mut p = Prog::inputs(2);
        let mut args = vec![0; n];
        if swap {
            args[j] = 1;
        }
        let o = p.call(0, &lib, args.clone());
        p.outs.extend(o);
        if swap {
            args.swap(i, j);
        } else {
            args[i] = 1;
            args[j] = 1;
        }
        let o = p.call(0, &lib, args);
        p.outs.extend(o);
        let (c, _, _) = build_all(&lib, &p, How::Sub)?;
        let want = eval_outs(&lib, &p, &lanes(2));
        let k = check_all(&c, 2, &want, &format!("{} inputs, arguments differ at {} and {}", n, i, j))?;
        ch.evals(k);
        ch.state(&(n, i, j, swap));
        ch.outcome(&want.iter().map(|w| w & 15).collect::<Vec<_>>());
        Ok(())
    };
    let mut v = vec![
        suite("wide modules", "a module of 70 and 129 (thorough 65-200) inputs that passes or inverts each, called twice with arguments that differ at two positions (all pairs), changed together or exchanged; all outputs, all assignments", wide),
        suite("module bodies", "all modules with up to 2 inputs, 2 gates (NOT, AND, XOR, constant) and 1-2 outputs (inputs, constants and repeats included), called once or twice with all argument tuples; all signals or single signals as outputs; all assignments; oracle: inlined copy", bodies),
        suite("calls", "six modules of every kind (pass-through, repeated, constant, no input, unused input), 1-2 calls with all arguments, an optional gate, any single output (thorough: pairs) or all of them; modules from sub_circuit, register_module, or another storage", mains),
        suite("nesting", "modules two and three levels deep around each of the six, called once or twice per level", nest),
        fam_suite("families", MODULES, if th { 130 } else { 70 }, |ch, f, n| run_family(ch, f, n, How::Sub)),
    ];
    v.push(suite("grown modules", "all histories of 5 (6) steps that call a module (directly or through another), extend it by a gate, a constant or an output, and extend the circuit; every signal evaluated at the end", move |ch| {
        super::exports::grown(ch, th, |ch, s, _| {
            let mut ev = NXAOBoolEvaluator::new(s.c.clone());
            for (v, w) in s.vecs.iter().zip(&s.want) {
                let got = eval_with(&mut ev, v)?;
                if got != *w {
                    return Err(format!("{}: on inputs {} the outputs are {}, expected {}", s.what, show_bits(v), show_bits(&got), show_bits(w)));
                }
            }
            ch.evals(s.vecs.len() as u64);
            ch.outcome(&s.want);
            Ok(())
        })
    }));
    v.push(fam_suite("families registered", SMALL_MODULES, 20, |ch, f, n| {
        let how = ch.pick(&[How::Register, How::Foreign]);
        run_family(ch, f, n.min(40), how)
    }));
    v
}

// ---------------------------------------------------------------- what a circuit answers

use circuit_converters::*;
use std::collections::{BTreeMap, HashMap};

/// Expected answers of a circuit's queries.
#[derive(Clone, Default)]
pub struct Book {
    pub gates: HashMap<GateId, NXAOBoolGate>,
    pub order: Vec<GateId>,
    pub inputs: Vec<GateId>,
    pub outputs: Vec<GateId>,
    pub consts: Vec<GateId>,
    pub n_gate: usize,
    pub n_const: usize,
}

impl Book {
    fn add(&mut self, id: GateId, g: NXAOBoolGate) -> R {
        if self.gates.insert(id, g).is_some() {
            return Err(format!("the identifier {} was in use already", id));
        }
        self.order.push(id);
        Ok(())
    }
    /// Dependents: (exact multiset of primitive readers, set of module call readers)
    fn dependents(&self) -> HashMap<GateId, (Vec<u64>, Vec<u64>)> {
        let mut r: HashMap<GateId, (Vec<u64>, Vec<u64>)> = HashMap::new();
        for (id, g) in &self.gates {
            let m = matches!(g, NXAOBoolGate::Module(_));
            for o in operands(g) {
                let e = r.entry(o).or_default();
                if m {
                    e.1.push(id.0)
                } else {
                    e.0.push(id.0)
                }
            }
        }
        for e in r.values_mut() {
            e.0.sort();
            e.1.sort();
            e.1.dedup();
        }
        r
    }
    /// An identifier the circuit never gave out.
    pub fn unknown_ids(&self) -> Vec<GateId> {
        let max = self.gates.keys().map(|g| g.0).max();
        let mut v = vec![];
        let mut free = 0;
        while self.gates.contains_key(&GateId(free)) {
            free += 1;
        }
        v.push(GateId(free));
        if let Some(m) = max {
            for d in [1, 2, 7] {
                if !v.contains(&GateId(m + d)) {
                    v.push(GateId(m + d));
                }
            }
        }
        v.push(GateId(u64::MAX));
        v
    }
}

pub fn check_queries(c: &Circ, b: &Book) -> R {
    imp("a query", || -> R {
        for id in &b.order {
            let g = c.get_gate(id).map_err(|e| format!("get_gate({}) failed: {}", id, e))?;
            if g != b.gates[id] {
                return Err(format!("get_gate({}) is {:?}, it was built as {:?}", id, g, b.gates[id]));
            }
            let (n, m, name) = match &b.gates[id] {
                NXAOBoolGate::Input(_) => (0, 1, "INPUT"),
                NXAOBoolGate::Const(_) => (0, 1, "CONST"),
                NXAOBoolGate::Not(_) => (1, 1, "INV"),
                NXAOBoolGate::Xor(_) => (2, 1, "XOR"),
                NXAOBoolGate::And(_) => (2, 1, "AND"),
                NXAOBoolGate::Or(_) => (2, 1, "OR"),
                NXAOBoolGate::Module(g) => (g.input_ids.len(), g.output_len, "MODULE"),
            };
            let d = (g.input_len(), g.output_len(), g.to_str());
            if (d.0, d.1, d.2.as_str()) != (n, m, name) {
                return Err(format!("gate {} ({:?}) describes itself as {:?}, expected {:?}", id, g, d, (n, m, name)));
            }
        }
        for (i, id) in b.inputs.iter().enumerate() {
            match c.input_to_gate_id(&WireId(i as u64)) {
                Ok(Some(x)) if x == *id => {}
                x => return Err(format!("input wire {} is reported as {:?}, the {}-th declared input is gate {}", i, x.map_err(|e| e.to_string()), i, id)),
            }
        }
        for (i, id) in b.outputs.iter().enumerate() {
            match c.output_to_gate_id(&WireId(i as u64)) {
                Ok(x) if x == *id => {}
                x => return Err(format!("output wire {} is reported as {:?}, the gate declared there is {}", i, x.map_err(|e| e.to_string()), id)),
            }
        }
        let k = c.get_const_gates();
        if k != b.consts {
            return Err(format!("the constants listed are {:?}, declared were {:?}", k, b.consts));
        }
        let dep = b.dependents();
        for id in &b.order {
            let d = c.get_depended_gates(id).map_err(|e| format!("get_depended_gates({}) failed: {}", id, e))?;
            let mut prim = vec![];
            let mut mods = vec![];
            for x in d {
                match b.gates.get(&x) {
                    Some(NXAOBoolGate::Module(_)) => mods.push(x.0),
                    _ => prim.push(x.0),
                }
            }
            prim.sort();
            mods.sort();
            mods.dedup();
            let want = dep.get(id).cloned().unwrap_or_default();
            if (prim.clone(), mods.clone()) != want {
                return Err(format!("the dependents of gate {} are reported as {:?} and calls {:?}, read it do {:?} and calls {:?}", id, prim, mods, want.0, want.1));
            }
        }
        for id in b.unknown_ids() {
            if let Ok(g) = c.get_gate(&id) {
                return Err(format!("get_gate of the unknown gate {} returned {:?}", id, g));
            }
        }
        for d in [0u64, 1, 5] {
            let i = b.inputs.len() as u64 + d;
            if let Ok(g) = c.input_to_gate_id(&WireId(i)) {
                return Err(format!("the unknown input {} was reported as {:?}", i, g));
            }
            let o = b.outputs.len() as u64 + d;
            if let Ok(g) = c.output_to_gate_id(&WireId(o)) {
                return Err(format!("the unknown output {} was reported as gate {}", o, g));
            }
        }
        Ok(())
    })?
}

pub fn check_sizes(c: &Circ, b: &Book) -> R {
    let got = imp("a size", || (c.input_len(), c.output_len(), c.num_gate(), c.num_const(), c.num_wire()))?;
    let want = (b.inputs.len(), b.outputs.len(), b.n_gate, b.n_const, b.inputs.len() + b.n_gate + b.n_const);
    if got != want {
        return Err(format!("sizes (inputs, outputs, gates, constants, wires) are reported as {:?}, the flattened circuit has {:?}", got, want));
    }
    Ok(())
}

/// Records what an operation of the program should have built, given the identifier it returned.
/// For equivalence and identity the gates are read back (their number is the implementation's choice,
/// their function is checked by evaluation).
fn record(c: &Circ, b: &mut Book, s: &Sig, g: &[GateId], id: GateId) -> R {
    let at = |a: u32| g[a as usize];
    match *s {
        Sig::In => {
            b.add(id, NXAOBoolGate::Input(InputGate { wire_id: WireId(b.inputs.len() as u64) }))?;
            b.inputs.push(id);
        }
        Sig::Const(value) => {
            b.add(id, NXAOBoolGate::Const(ConstGate { value }))?;
            b.consts.push(id);
            b.n_const += 1;
        }
        Sig::Not(a) => {
            b.add(id, NXAOBoolGate::Not(NotGate { id: at(a) }))?;
            b.n_gate += 1;
        }
        Sig::Xor(l, r) => {
            b.add(id, NXAOBoolGate::Xor(XorGate { left_id: at(l), right_id: at(r) }))?;
            b.n_gate += 1;
        }
        Sig::And(l, r) => {
            b.add(id, NXAOBoolGate::And(AndGate { left_id: at(l), right_id: at(r) }))?;
            b.n_gate += 1;
        }
        Sig::Or(l, r) => {
            b.add(id, NXAOBoolGate::Or(OrGate { left_id: at(l), right_id: at(r) }))?;
            b.n_gate += 1;
        }
        Sig::Eqv(..) | Sig::Id(_) => {
            if b.gates.contains_key(&id) {
                return Err(format!("the identifier {} was in use already", id));
            }
            let new = reachable_new(c, &[id], &|g| b.gates.contains_key(g))?;
            for x in new {
                let gate = c.get_gate(&x).map_err(|e| e.to_string())?;
                if matches!(gate, NXAOBoolGate::Input(_) | NXAOBoolGate::Module(_)) {
                    return Err(format!("{:?} built {:?}", s, gate));
                }
                if let NXAOBoolGate::Const(_) = gate {
                    b.consts.push(x);
                    b.n_const += 1;
                } else {
                    b.n_gate += 1;
                }
                b.add(x, gate)?;
            }
        }
        Sig::Call(..) => unreachable!(),
    }
    Ok(())
}

/// Applies one primitive building operation.
pub fn apply(c: &mut Circ, s: &Sig, g: &[GateId]) -> Result<GateId, String> {
    let at = |a: u32| g[a as usize];
    imp("building", || match *s {
        Sig::In => c.input(),
        Sig::Const(v) => c.constant(v),
        Sig::Not(a) => c.not(&at(a)),
        Sig::Xor(a, b) => c.xor(&at(a), &at(b)),
        Sig::And(a, b) => c.and(&at(a), &at(b)),
        Sig::Or(a, b) => c.or(&at(a), &at(b)),
        Sig::Eqv(a, b) => c.equivalent(&at(a), &at(b)),
        Sig::Id(a) => c.identity(&at(a)),
        Sig::Call(..) => unreachable!(),
    })?
    .map_err(|e| format!("{:?} failed: {}", s, e))
}

/// (gates, constants) of module i, flattened, as counted by traversal of what was built.
type Sizes = Vec<(usize, usize)>;

pub struct Hist {
    pub c: Circ,
    pub b: Book,
    pub p: Prog,
    pub g: Vec<GateId>,
    pub lib: Lib,
    pub mids: Vec<ModuleId>,
    pub msizes: Sizes,
}

impl Hist {
    pub fn new(lib: Lib, how: How) -> Result<Hist, String> {
        let mut c = new_circ();
        let mids = add_lib(&mut c, &lib, how)?;
        // sizes of the modules by building them once more gate by gate
        let mut msizes: Sizes = vec![];
        for i in 0..lib.len() {
            let mut h = Hist { c: new_circ(), b: Book::default(), p: Prog::default(), g: vec![], lib: lib[..i].to_vec(), mids: vec![], msizes: msizes.clone() };
            h.mids = add_lib(&mut h.c, &lib[..i].to_vec(), How::Sub)?;
            h.play(&lib[i])?;
            msizes.push((h.b.n_gate, h.b.n_const));
        }
        Ok(Hist { c, b: Book::default(), p: Prog::default(), g: vec![], lib, mids, msizes })
    }
    /// Builds the signals of a program (not its outputs), calls in order, those without outputs too.
    pub fn play(&mut self, p: &Prog) -> R {
        let mut done = 0;
        for s in &p.sigs {
            match s {
                Sig::Call(k, _) => {
                    while done <= *k as usize {
                        self.call(p.calls[done].module as usize, p.calls[done].args.clone())?;
                        done += 1;
                    }
                }
                s => self.prim(s.clone())?,
            }
        }
        for k in &p.calls[done..] {
            self.call(k.module as usize, k.args.clone())?;
        }
        Ok(())
    }
    pub fn prim(&mut self, s: Sig) -> R {
        let id = apply(&mut self.c, &s, &self.g)?;
        record(&self.c, &mut self.b, &s, &self.g, id)?;
        self.p.push(s);
        self.g.push(id);
        Ok(())
    }
    pub fn call(&mut self, m: usize, args: Vec<u32>) -> R {
        let ids: Vec<GateId> = args.iter().map(|a| self.g[*a as usize]).collect();
        let mid = self.mids[m];
        let outs = imp("calling a module", || self.c.module(&mid, &ids))?.map_err(|e| format!("calling module {} failed: {}", m, e))?;
        if outs.len() != self.lib[m].outs.len() {
            return Err(format!("a call returned {} outputs, the module has {}", outs.len(), self.lib[m].outs.len()));
        }
        for (i, o) in outs.iter().enumerate() {
            self.b.add(*o, NXAOBoolGate::Module(ModuleGate { input_len: ids.len(), output_len: outs.len(), input_ids: ids.clone(), out_index: i, module_id: mid }))?;
        }
        self.b.n_gate += self.msizes[m].0;
        self.b.n_const += self.msizes[m].1;
        let lib = self.lib.clone();
        self.p.call(m, &lib, args);
        self.g.extend(outs);
        Ok(())
    }
    pub fn output(&mut self, s: u32) -> R {
        let id = self.g[s as usize];
        let w = imp("output", || self.c.output(id))?.map_err(|e| format!("output of gate {} failed: {}", id, e))?;
        if w.0 != self.b.outputs.len() as u64 {
            return Err(format!("the {}-th output got wire {}", self.b.outputs.len(), w));
        }
        self.b.outputs.push(id);
        self.p.outs.push(s);
        Ok(())
    }
    /// Chooses and applies one valid operation.
    pub fn step(&mut self, ch: &mut Ch, args_all: bool) -> R {
        let n = self.g.len();
        // 0 input 1 const 2 not 3 xor 4 and 5 or 6 eqv 7 id 8 output 9.. call
        let k = if n == 0 { ch.choose(2 + self.lib.len()) } else { ch.choose(9 + self.lib.len()) };
        let k = if n == 0 && k >= 2 { k + 7 } else { k };
        match k {
            0 => {
                self.prim(Sig::In)?;
            }
            1 => {
                let v = ch.flip();
                self.prim(Sig::Const(v))?;
            }
            2 | 7 => {
                let a = ch.choose(n) as u32;
                self.prim(if k == 2 { Sig::Not(a) } else { Sig::Id(a) })?;
            }
            3..=6 => {
                let a = ch.choose(n) as u32;
                let b = ch.choose(n) as u32;
                self.prim(match k {
                    3 => Sig::Xor(a, b),
                    4 => Sig::And(a, b),
                    5 => Sig::Or(a, b),
                    _ => Sig::Eqv(a, b),
                })?;
            }
            8 => {
                let a = ch.choose(n) as u32;
                self.output(a)?;
            }
            _ => {
                let m = k - 9;
                let want = self.lib[m].n_in();
                if n == 0 && want > 0 {
                    self.prim(Sig::In)?;
                }
                let n = self.g.len();
                let args = if args_all {
                    gen_args(ch, &self.p, want)
                } else {
                    let s = ch.choose(n.max(1));
                    (0..want).map(|i| ((s + i) % n) as u32).collect()
                };
                self.call(m, args)?;
            }
        }
        ch.say(|| format!("{}", self.p.show()));
        ch.state(&(5u8, &self.p));
        Ok(())
    }
}

pub fn small_lib() -> Lib {
    let z = zoo();
    // (x, x^y, x) and a nested one with constants
    let mut lib = vec![z[1].clone(), z[2].clone()];
    let mut m = Prog::inputs(1);
    let o = m.call(1, &lib, vec![0]);
    let e = m.push(Sig::Eqv(o[1], 0));
    let k = m.push(Sig::Const(false));
    m.outs = vec![e, k];
    lib.push(m);
    // no outputs, but gates and a constant of its own
    let mut m = Prog::inputs(1);
    let k = m.push(Sig::Const(true));
    m.push(Sig::And(0, k));
    lib.push(m);
    // calls the one without outputs, and has no input
    let mut m = Prog::inputs(0);
    let k = m.push(Sig::Const(true));
    m.call(3, &lib, vec![k]);
    m.outs = vec![k];
    lib.push(m);
    lib
}

fn hist_suite(name: &str, depth: usize, start: usize, check: fn(&Circ, &Book) -> R) -> Suite {
    suite(
        name,
        &format!("all histories of {} operations (input, constant 0/1, NOT, XOR, AND, OR, equivalence, identity, output, call of five modules: pass-through and repeated outputs, constants, nested, without outputs, without inputs) with all operands, from {} declared inputs; checked after every operation", depth, start),
        move |ch| {
            let mut h = Hist::new(small_lib(), How::Sub)?;
            for _ in 0..start {
                h.prim(Sig::In)?;
            }
            check(&h.c, &h.b)?;
            for _ in 0..depth {
                h.step(ch, false)?;
                check(&h.c, &h.b).map_err(|e| format!("{}\n  after: {}", e, h.p.show()))?;
                ch.evals(1);
            }
            ch.outcome(&(h.b.n_gate, h.b.n_const, h.b.outputs.len(), h.b.inputs.len()));
            Ok(())
        },
    )
}

fn fam_book(ch: &mut Ch, f: &Fam, n: usize, check: fn(&Circ, &Book) -> R) -> R {
    let (lib, p) = (f.make)(n);
    ch.state(&(f.name, n));
    let mut h = Hist::new(lib, How::Sub)?;
    h.play(&p)?;
    for o in &p.outs {
        h.output(*o)?;
    }
    check(&h.c, &h.b).map_err(|e| format!("{}({}): {}", f.name, n, e))?;
    ch.say(|| format!("{}({}): {} gates, {} constants flattened", f.name, n, h.b.n_gate, h.b.n_const));
    ch.outcome(&(h.b.n_gate, h.b.n_const));
    ch.evals(1);
    Ok(())
}

pub fn c04(th: bool) -> Vec<Suite> {
    vec![
        hist_suite("histories", if th { 4 } else { 3 }, 2, check_sizes),
        hist_suite("histories from nothing", if th { 5 } else { 4 }, 0, check_sizes),
        fam_suite("families", PLAIN, 70, |ch, f, n| fam_book(ch, f, n, check_sizes)),
        fam_suite("module families", MODULES_T, 40, |ch, f, n| fam_book(ch, f, n, check_sizes)),
        suite("module bodies", "all modules with up to 2 inputs, 2 gates and 1-3 outputs, called twice; sizes after every call", |ch| {
            let m = gen_module(ch, 2, 2, FULL, 2);
            let n = m.n_in();
            let mut lib = vec![m];
            let mut w = Prog::inputs(2);
            let o = w.call(0, &lib, (0..n as u32).collect());
            w.outs = vec![o[0], 1];
            lib.push(w);
            let how = ch.pick(HOWS);
            let mut h = Hist::new(lib, how)?;
            h.prim(Sig::In)?;
            h.prim(Sig::In)?;
            for m in [0, 1, 0, 1] {
                let k = h.lib[m].n_in();
                h.call(m, (0..k as u32).collect())?;
                check_sizes(&h.c, &h.b).map_err(|e| format!("{}\n  modules {:?}", e, h.lib))?;
                ch.evals(1);
            }
            ch.state(&h.lib);
            ch.outcome(&(h.b.n_gate, h.b.n_const));
            Ok(())
        }),
    ]
}

pub fn c05(th: bool) -> Vec<Suite> {
    vec![
        hist_suite("histories", if th { 4 } else { 3 }, 2, check_queries),
        hist_suite("histories from nothing", if th { 5 } else { 4 }, 0, check_queries),
        fam_suite("families", PLAIN, 70, |ch, f, n| fam_book(ch, f, n.min(20000), check_queries)),
        fam_suite("module families", MODULES_T, 40, |ch, f, n| fam_book(ch, f, n, check_queries)),
        suite("calls", "two calls of a module with all argument tuples (repeats included) over 3 signals, then gates reading their outputs", move |ch| {
            let mut h = Hist::new(zoo(), ch_how(ch))?;
            for _ in 0..3 {
                h.prim(Sig::In)?;
            }
            for _ in 0..2 {
                let m = ch.choose(h.lib.len());
                let args = gen_args(ch, &h.p, h.lib[m].n_in());
                h.call(m, args)?;
                check_queries(&h.c, &h.b)?;
                ch.evals(1);
            }
            let n = h.g.len() as u32;
            h.prim(Sig::Xor(n - 1, 0))?;
            h.prim(Sig::Not(n - 1))?;
            h.output(n - 1)?;
            ch.state(&h.p);
            ch.outcome(&(h.b.n_gate, h.b.n_const, h.p.len()));
            check_queries(&h.c, &h.b)
        }),
    ]
}

fn ch_how(ch: &mut Ch) -> How {
    ch.pick(HOWS)
}

// ---------------------------------------------------------------- C03

/// Everything the queries say, in one comparable value.
fn snapshot(c: &Circ, gates: &[GateId]) -> Result<String, String> {
    imp("a query", || {
        let mut s = format!("{} {} {} {} {} {:?};", c.input_len(), c.output_len(), c.num_gate(), c.num_const(), c.num_wire(), c.get_const_gates());
        for i in 0..c.input_len() as u64 + 1 {
            s += &format!(" {:?}", c.input_to_gate_id(&WireId(i)).ok());
        }
        for i in 0..c.output_len() as u64 + 1 {
            s += &format!(" {:?}", c.output_to_gate_id(&WireId(i)).ok());
        }
        for g in gates {
            s += &format!(" {:?}{:?}", c.get_gate(g).ok(), c.get_depended_gates(g).ok());
        }
        for d in 0..6u64 {
            let g = GateId(gates.iter().map(|g| g.0).max().unwrap_or(0) + 1 + d);
            s += &format!(" {:?}{:?}", c.get_gate(&g).ok(), c.get_depended_gates(&g).ok());
        }
        s
    })
}

struct Obj {
    c: Circ,
    p: Prog,
    g: Vec<GateId>,
    ev: NXAOBoolEvaluator,
    /// values of outputs seen so far, per assignment
    seen: HashMap<u64, Vec<bool>>,
}

pub fn c03(th: bool) -> Vec<Suite> {
    let hist = move |ch: &mut Ch| {
        let depth = if th { 7 } else { 6 };
        // main circuit with a sub-circuit module (x -> x ^ 1, x) that may grow later
        let mut c = new_circ();
        let (mid, mut sub) = imp("sub_circuit", || c.sub_circuit())?;
        let mut sp = Prog::inputs(1);
        let k = sp.push(Sig::Const(true));
        let x = sp.push(Sig::Xor(0, k));
        sp.outs = vec![x, 0];
        let sb = build(&mut sub, &sp, &[])?;
        let mut sg = sb.gates;
        let mut lib0 = vec![sp];
        let mut p = Prog::inputs(2);
        p.outs = vec![];
        let b = build(&mut c, &p, &[mid])?;
        let ev = NXAOBoolEvaluator::new(c.clone());
        let mut objs = vec![Obj { c, p, g: b.gates, ev, seen: HashMap::new() }];
        for _ in 0..depth {
            let op = ch.choose(if objs.len() == 1 { 9 } else { 10 });
            // operations on the last object; 9 switches the two
            let n = objs.len();
            let o = &mut objs[n - 1];
            let last = o.p.len() - 1;
            let prim = |o: &mut Obj, s: Sig| -> R {
                let id = apply(&mut o.c, &s, &o.g)?;
                o.p.push(s);
                o.g.push(id);
                Ok(())
            };
            match op {
                0 => {
                    // evaluate with the evaluator held from the start, then a new one
                    for k in 0..4u64 {
                        let ins = bits(k, 2);
                        let before = snapshot(&o.c, &o.g)?;
                        let got = eval_with(&mut o.ev, &ins)?;
                        let again = eval_with(&mut o.ev, &ins)?;
                        let fresh = eval_real(&o.c, &ins)?;
                        if got != again || got != fresh {
                            return Err(format!("evaluating {} gives {} then {} then {} with a new evaluator: {}", show_bits(&ins), show_bits(&got), show_bits(&again), show_bits(&fresh), o.p.show()));
                        }
                        if snapshot(&o.c, &o.g)? != before {
                            return Err(format!("evaluation changed the circuit {}", o.p.show()));
                        }
                        if let Some(old) = o.seen.get(&k) {
                            if got[..old.len().min(got.len())] != old[..] {
                                return Err(format!("outputs declared earlier changed from {} to {}: {}", show_bits(old), show_bits(&got), o.p.show()));
                            }
                        }
                        let want = eval_outs(&lib0, &o.p, &lanes(2));
                        compare(&ins, &got, &want, k as u32, &o.p.show())?;
                        o.seen.insert(k, got);
                        ch.evals(3);
                    }
                }
                1 => prim(o, Sig::Xor(last, 0))?,
                2 => prim(o, Sig::Not(last))?,
                3 => prim(o, Sig::And(0, last))?,
                4 => {
                    let id = o.g[last as usize];
                    imp("output", || o.c.output(id))?.map_err(|e| e.to_string())?;
                    o.p.outs.push(last);
                }
                5 => {
                    let id = o.g[1];
                    let mut handle = o.c.clone();
                    imp("output", || handle.output(id))?.map_err(|e| e.to_string())?;
                    o.p.outs.push(1);
                }
                6 => {
                    let id = o.g[last as usize];
                    let mut handle = o.c.clone();
                    let outs = imp("call", || handle.module(&mid, &[id]))?.map_err(|e| e.to_string())?;
                    if outs.len() != lib0[0].outs.len() {
                        return Err(format!("a call returned {} outputs, the module has {}", outs.len(), lib0[0].outs.len()));
                    }
                    o.p.call(0, &lib0, vec![last]);
                    o.g.extend(&outs);
                }
                7 => {
                    // the module grows: a gate and an output more; calls made before keep their outputs
                    let z = lib0[0].push(Sig::Not(0));
                    lib0[0].outs.push(z);
                    let r = imp("extending a module", || {
                        let z = sub.not(&sg[0])?;
                        sub.output(z)?;
                        Ok::<_, BoolCircuitError>(z)
                    })?
                    .map_err(|e| e.to_string())?;
                    sg.push(r);
                }
                8 => {
                    // a value copy; work goes on with the copy, the original must not notice
                    if n == 1 {
                        let copy = imp("clone", || {
                            let v: NXAOBoolCircuit = (*o.c.borrow()).clone();
                            v.to_ref()
                        })?;
                        let ev = NXAOBoolEvaluator::new(copy.clone());
                        let q = Obj { c: copy, p: o.p.clone(), g: o.g.clone(), ev, seen: HashMap::new() };
                        objs.push(q);
                    } else {
                        prim(o, Sig::Const(true))?;
                    }
                }
                _ => {
                    objs.swap(0, 1);
                }
            }
            ch.state(&(objs.iter().map(|o| (o.p.clone(), o.seen.len())).collect::<Vec<_>>(), sg.len()));
            ch.say(|| format!("op {}: {:?}", op, objs.iter().map(|o| o.p.show()).collect::<Vec<_>>()));
        }
        // at the end everything must still be what the model says
        for o in &mut objs {
            let want = eval_outs(&lib0, &o.p, &lanes(2));
            for k in 0..4u64 {
                let ins = bits(k, 2);
                let got = eval_with(&mut o.ev, &ins)?;
                compare(&ins, &got, &want, k as u32, &format!("at the end, {}", o.p.show()))?;
                ch.evals(1);
            }
            ch.outcome(&want.iter().map(|w| w & 15).collect::<Vec<_>>());
        }
        Ok(())
    };
    let orders = move |ch: &mut Ch| {
        // every sequence of assignments on one evaluator, interleaved with a second evaluator and circuit
        let i = ch.choose(4);
        let lib = small_lib();
        let mut p = Prog::inputs(2);
        match i {
            0 => {
                let o = p.call(0, &lib, vec![1, 0]);
                let g = p.push(Sig::And(o[1], 0));
                p.outs = vec![g, o[0], g];
            }
            1 => {
                let o = p.call(2, &lib, vec![0]);
                let g = p.push(Sig::Eqv(o[0], 1));
                p.outs = vec![g, 0, o[1]];
            }
            2 => {
                let g = p.push(Sig::Xor(0, 1));
                let h = p.push(Sig::Or(g, g));
                p.outs = vec![h, g];
            }
            _ => {
                let g = p.push(Sig::Const(true));
                let h = p.push(Sig::Xor(g, 0));
                p.outs = vec![h, g, 1];
            }
        }
        let (c, b, _) = build_all(&lib, &p, How::Sub)?;
        let want = eval_outs(&lib, &p, &lanes(2));
        let before = snapshot(&c, &b.gates)?;
        let mut a = NXAOBoolEvaluator::new(c.clone());
        let mut bb = a.clone();
        for _ in 0..if th { 6 } else { 5 } {
            let k = ch.choose(4) as u64;
            let ins = bits(k, 2);
            let got = if ch.flip() { eval_with(&mut bb, &ins)? } else { eval_with(&mut a, &ins)? };
            compare(&ins, &got, &want, k as u32, &p.show())?;
            ch.evals(1);
        }
        ch.state(&(i, ch.choices.clone()));
        ch.outcome(&i);
        if snapshot(&c, &b.gates)? != before {
            return Err(format!("evaluation changed the circuit {}", p.show()));
        }
        Ok(())
    };
    let growth = move |ch: &mut Ch| {
        // a circuit grown gate by gate, evaluated after every step; outputs declared earlier keep their value
        let fams: Vec<&'static Fam> = PLAIN.iter().chain(MODULES.iter()).collect();
        let f = ch.pick(&fams);
        let n = ch.pick(&[1usize, 2, 3, 5, 8, 13, 21]);
        let (lib, p) = (f.make)(n);
        ch.state(&(f.name, n));
        let mut h = Hist::new(lib, How::Sub)?;
        let n_in = p.n_in();
        for _ in 0..n_in {
            h.prim(Sig::In)?;
        }
        let vecs = vectors(n_in);
        let ll = to_lanes(n_in, &vecs);
        let mut ev = NXAOBoolEvaluator::new(h.c.clone());
        let mut done = 0;
        for s in &p.sigs {
            match s {
                Sig::In => continue,
                Sig::Call(k, _) => {
                    if *k as usize == done {
                        h.call(p.calls[done].module as usize, p.calls[done].args.clone())?;
                        done += 1;
                    } else {
                        continue;
                    }
                }
                s => h.prim(s.clone())?,
            }
            let last = h.p.len() - 1;
            h.output(last)?;
            let want = eval_outs(&h.lib, &h.p, &ll);
            for (k, v) in vecs.iter().enumerate() {
                let got = eval_with(&mut ev, v)?;
                compare(v, &got, &want, k as u32, &format!("{}({}) grown to {} signals", f.name, n, h.p.len()))?;
                ch.evals(1);
            }
        }
        ch.outcome(&(f.name, h.p.outs.len()));
        Ok(())
    };
    vec![
        suite("histories", "all histories of 6 (thorough 7) operations on a circuit, its value copy and a module: evaluate all assignments (held and new evaluator, twice, circuit unchanged), XOR, NOT, AND, output of an inner gate, output of an input through another handle, call, module grows by an output, copy, switch; everything evaluated again at the end", hist),
        suite("orders", "four circuits, all sequences of 5 (6) evaluations over 4 assignments and two evaluators", orders),
        suite("growth", "every family grown signal by signal with an output declared and all vectors evaluated after each", growth),
    ]
}

// ---------------------------------------------------------------- C25

pub fn c25(th: bool) -> Vec<Suite> {
    let misuse = move |ch: &mut Ch| {
        let mut h = Hist::new(small_lib(), How::Sub)?;
        let start = ch.choose(3);
        for _ in 0..start {
            h.prim(Sig::In)?;
        }
        let pre = ch.choose(if th { 4 } else { 3 });
        for _ in 0..pre {
            h.step(ch, false)?;
        }
        // one or two misuses with a valid operation after each
        let times = 1 + if th || pre < 2 { ch.choose(2) } else { 0 };
        for t in 0..times {
            misuse_once(ch, &mut h)?;
            if t == 0 {
                let s = if h.g.is_empty() { Sig::In } else { Sig::Not(h.g.len() as u32 - 1) };
                h.prim(s)?;
                let l = h.p.len() - 1;
                h.output(l)?;
            }
        }
        let n = h.b.inputs.len();
        let want = eval_outs(&h.lib, &h.p, &lanes(n));
        let k = check_all(&h.c, n, &want, &format!("after the misuse, {}", h.p.show()))?;
        ch.evals(k);
        Ok(())
    };
    let lens = move |ch: &mut Ch| {
        // wrong numbers of inputs for circuits of many widths
        let fams: Vec<&'static Fam> = PLAIN.iter().chain(MODULES.iter()).collect();
        let f = ch.pick(&fams);
        let n = ch.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 65, 100]);
        let (lib, p) = (f.make)(n);
        ch.state(&(f.name, n));
        let (mut c, b, mids) = build_all(&lib, &p, How::Sub)?;
        let n_in = p.n_in();
        let before = snapshot(&c, &b.gates)?;
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        let mut lens: Vec<usize> = (0..=n_in + 3).collect();
        lens.extend([2 * n_in, n_in + 64, n_in + 256, n_in + 65536]);
        for l in lens {
            for v in [false, true] {
                let r = imp("evaluation", || ev.eval_output(&vec![v; l]))?;
                if (l == n_in) != r.is_ok() {
                    return Err(format!("{}({}) has {} inputs; evaluating {} inputs gives {:?}", f.name, n, n_in, l, r.map_err(|e| e.to_string())));
                }
                ch.evals(1);
            }
        }
        // calls with a wrong number of arguments
        for (i, m) in lib.iter().enumerate() {
            let want = m.n_in();
            if b.gates.is_empty() {
                continue;
            }
            let mut lens: Vec<usize> = (0..=want + 2).collect();
            lens.extend([2 * want, want + 256]);
            lens.retain(|l| *l != want);
            if lib.len() > 10 && i % 7 != 0 {
                continue;
            }
            for l in lens {
                let args: Vec<GateId> = (0..l).map(|k| b.gates[k % b.gates.len()]).collect();
                if let Ok(o) = imp("call", || c.module(&mids[i], &args))? {
                    return Err(format!("{}({}): a call with {} arguments of a module with {} inputs gave {:?}", f.name, n, l, want, o));
                }
                ch.evals(1);
            }
        }
        if snapshot(&c, &b.gates)? != before {
            return Err(format!("{}({}): rejected evaluations or calls changed the circuit", f.name, n));
        }
        ch.outcome(&(f.name, n_in));
        Ok(())
    };
    vec![
        suite("misuse", "all histories of up to 2 (3) operations from 0-2 inputs, then one or two misuses (every operation with every unknown gate in every operand position, calls with every wrong argument count up to 2 more, with an unknown gate, of an unknown module, evaluation with every wrong length up to 3 more), each followed by a comparison of all queries and by valid operations; all assignments at the end", misuse),
        suite("lengths", "every family at 15 sizes, evaluated with every number of inputs from 0 to 3 more than its own and some far larger; every module called with every number of arguments", lens),
    ]
}

fn misuse_once(ch: &mut Ch, h: &mut Hist) -> R {
    let n = h.g.len();
    let bad = h.b.unknown_ids();
    let good = |i: usize| h.g[n - 1 - i % n];
    let before = snapshot(&h.c, &h.b.order)?;
    let book = h.b.clone();
    // which misuse
    let kinds: Vec<usize> = if n == 0 { vec![0, 1, 6, 7] } else { (0..8).collect() };
    let kind = ch.pick(&kinds);
    let what: String;
    let err: bool;
    match kind {
        0 => {
            let b = ch.pick(&bad);
            what = format!("NOT of the unknown gate {}", b);
            err = imp(&what, || h.c.not(&b))?.is_err();
        }
        1 => {
            let b = ch.pick(&bad);
            if ch.flip() {
                what = format!("output of the unknown gate {}", b);
                err = imp(&what, || h.c.output(b))?.is_err();
            } else {
                what = format!("identity of the unknown gate {}", b);
                err = imp(&what, || h.c.identity(&b))?.is_err();
            }
        }
        2..=5 => {
            let b = ch.pick(&bad);
            let (l, r) = match ch.choose(3) {
                0 => (b, good(0)),
                1 => (good(0), b),
                _ => (b, b),
            };
            what = format!("operation {} of gates {} and {}", kind, l, r);
            err = imp(&what, || match kind {
                2 => h.c.xor(&l, &r),
                3 => h.c.and(&l, &r),
                4 => h.c.or(&l, &r),
                _ => h.c.equivalent(&l, &r),
            })?
            .is_err();
        }
        6 => {
            let l = {
                let n_in = h.b.inputs.len();
                let v: Vec<usize> = (0..n_in + 4).filter(|x| *x != n_in).collect();
                ch.pick(&v)
            };
            let v = ch.flip();
            what = format!("evaluation with {} inputs", l);
            let c = h.c.clone();
            err = imp(&what, || NXAOBoolEvaluator::new(c).eval_output(&vec![v; l]))?.is_err();
        }
        _ => {
            let m = ch.choose(h.lib.len() + 1);
            if m == h.lib.len() {
                let ids = [h.lib.len() as u64, h.lib.len() as u64 + 1, u64::MAX];
                let id = ModuleId(ch.pick(&ids));
                let args: Vec<GateId> = if n == 0 { vec![] } else { (0..ch.choose(3)).map(good).collect() };
                what = format!("call of the unknown module {} with {} arguments", id, args.len());
                err = imp(&what, || h.c.module(&id, &args))?.is_err();
            } else {
                let want = h.lib[m].n_in();
                let mid = h.mids[m];
                let lens: Vec<usize> = if n == 0 { vec![0] } else { (0..want + 3).collect() };
                let l = ch.pick(&lens);
                let mut args: Vec<GateId> = (0..l).map(good_or(&h.g)).collect();
                if l == want {
                    // right number, one of them unknown
                    if l == 0 {
                        return Ok(());
                    }
                    let b = ch.pick(&bad);
                    let at = ch.choose(l);
                    args[at] = b;
                }
                what = format!("call of module {} ({} inputs) with the gates {:?}", m, want, args);
                err = imp(&what, || h.c.module(&mid, &args))?.is_err();
            }
        }
    }
    ch.say(|| what.clone());
    ch.state(&(h.p.clone(), &what));
    ch.evals(1);
    ch.outcome(&(kind, err));
    if !err {
        return Err(format!("{} was not reported as an error; circuit {}", what, h.p.show()));
    }
    let after = snapshot(&h.c, &book.order)?;
    if after != before {
        return Err(format!("{} was rejected but changed the circuit\n  before {}\n  after  {}", what, before, after));
    }
    Ok(())
}

fn good_or<'a>(g: &'a [GateId]) -> impl Fn(usize) -> GateId + 'a {
    move |i| g[g.len() - 1 - i % g.len()]
}

// ---------------------------------------------------------------- C06

pub fn c06(th: bool) -> Vec<Suite> {
    // registered circuits are told apart by their function: circuit k outputs the bits of k and its input
    fn marked(st: &Store, k: usize) -> Result<(Circ, Prog), String> {
        let mut p = Prog::inputs(1);
        for b in 0..4 {
            let s = p.push(Sig::Const(k >> b & 1 == 1));
            p.outs.push(s);
        }
        let x = p.push(Sig::Not(0));
        p.outs.push(x);
        let mut c = NXAOBoolCircuit::new(st.clone()).to_ref();
        build(&mut c, &p, &[])?;
        Ok((c, p))
    }
    let hist = move |ch: &mut Ch| {
        let depth = if th { 6 } else { 5 };
        let mut st = [new_store(), new_store()];
        // two circuits per storage
        let mut circ: Vec<Vec<Circ>> = (0..2).map(|s| (0..2).map(|_| NXAOBoolCircuit::new(st[s].clone()).to_ref()).collect()).collect();
        let mut reg: [Vec<(ModuleId, Circ, Prog)>; 2] = [vec![], vec![]];
        for d in 0..depth {
            let s = ch.choose(2);
            let how = ch.choose(6);
            // the circuit registered may belong to the other storage, or be registered already
            let (id, c, p) = match how {
                0..=2 => {
                    let (c, p) = marked(&st[s], d)?;
                    let id = match how {
                        0 => imp("register_module", || circ[s][0].register_module(&c))?,
                        1 => imp("register_module", || st[s].register_module(&c))?,
                        _ => imp("register_module", || circ[s][1].register_module(&c))?,
                    };
                    (id, c, p)
                }
                3 => {
                    // a sub-circuit, filled after its creation
                    let (id, mut c) = imp("sub_circuit", || circ[s][0].sub_circuit())?;
                    let (_, p) = marked(&st[s], d)?;
                    build(&mut c, &p, &[])?;
                    (id, c, p)
                }
                4 => {
                    let (c, p) = marked(&st[1 - s], d)?;
                    let id = imp("register_module", || circ[s][0].register_module(&c))?;
                    (id, c, p)
                }
                _ => {
                    // a circuit that is registered already, or a sub-circuit of a sub-circuit
                    if let Some((_, c, p)) = reg[s].last().cloned() {
                        let id = imp("register_module", || circ[s][1].register_module(&c))?;
                        (id, c, p)
                    } else {
                        let (_, mut c) = {
                            let (id, c) = imp("sub_circuit", || circ[s][1].sub_circuit())?;
                            let (_, p) = marked(&st[s], 9)?;
                            let mut c2 = c.clone();
                            build(&mut c2, &p, &[])?;
                            reg[s].push((id, c.clone(), p));
                            (id, c)
                        };
                        let (id, mut c2) = imp("sub_circuit", || c.sub_circuit())?;
                        let (_, p) = marked(&st[s], d)?;
                        build(&mut c2, &p, &[])?;
                        (id, c2, p)
                    }
                }
            };
            if reg[s].iter().any(|r| r.0 == id) {
                return Err(format!("the module id {} was in use already", id));
            }
            reg[s].push((id, c, p));
            ch.state(&(0..2).map(|s| reg[s].iter().map(|r| (r.0 .0, r.2.clone())).collect::<Vec<_>>()).collect::<Vec<_>>());
            ch.say(|| format!("registration {} in storage {} gave id {}", how, s, id));
            // every look-up in both storages, by the storage, its circuits and its modules
            for s in 0..2 {
                let n = imp("num_module", || st[s].num_module())?;
                if n != reg[s].len() {
                    return Err(format!("num_module is {}, {} modules were registered", n, reg[s].len()));
                }
                for (id, orig, p) in &reg[s] {
                    let mut found: Vec<(&str, Circ)> = vec![];
                    let e = |e: BoolCircuitError| format!("looking up module {} failed: {}", id, e);
                    found.push(("storage", imp("get_module", || st[s].get_module(id))?.map_err(e)?));
                    found.push(("first circuit", imp("get_module", || circ[s][0].get_module(id))?.map_err(e)?));
                    found.push(("second circuit", imp("get_module", || circ[s][1].get_module(id))?.map_err(e)?));
                    for (who, f) in found {
                        if f != *orig {
                            return Err(format!("module {} looked up by {} is not the circuit registered", id, who));
                        }
                        let want = eval_outs(&[], p, &lanes(1));
                        check_all(&f, 1, &want, &format!("module {} looked up by {}", id, who))?;
                        ch.evals(1);
                    }
                }
                // identifiers nobody was given
                let next = reg[s].iter().map(|r| r.0 .0 + 1).max().unwrap_or(0);
                for u in [next, next + 1, u64::MAX] {
                    let u = ModuleId(u);
                    let a = imp("get_module", || st[s].get_module(&u))?.is_ok();
                    let b = imp("get_module", || circ[s][0].get_module(&u))?.is_ok();
                    if a || b {
                        return Err(format!("the unknown module {} was found", u));
                    }
                }
            }
        }
        ch.outcome(&(reg[0].len(), reg[1].len()));
        Ok(())
    };
    let many = move |ch: &mut Ch| {
        let n = ch.pick(&[300usize, 1100, 70000]);
        let mode = ch.choose(2);
        let st = new_store();
        let mut c = NXAOBoolCircuit::new(st.clone()).to_ref();
        let mut ids: BTreeMap<u64, usize> = BTreeMap::new();
        for k in 0..n {
            let id = if mode == 0 {
                let (id, mut s) = imp("sub_circuit", || c.sub_circuit())?;
                // k is written into the inputs and outputs of the module
                for _ in 0..k % 5 {
                    s.input().map_err(|e| e.to_string())?;
                }
                let z = s.constant(k % 2 == 0).map_err(|e| e.to_string())?;
                for _ in 0..k % 7 {
                    s.output(z).map_err(|e| e.to_string())?;
                }
                id
            } else {
                let mut s = NXAOBoolCircuit::new(st.clone()).to_ref();
                for _ in 0..k % 5 {
                    s.input().map_err(|e| e.to_string())?;
                }
                let z = s.constant(k % 2 == 0).map_err(|e| e.to_string())?;
                for _ in 0..k % 7 {
                    s.output(z).map_err(|e| e.to_string())?;
                }
                imp("register_module", || c.register_module(&s))?
            };
            if ids.insert(id.0, k).is_some() {
                return Err(format!("the {}-th registration got the id {}, which was in use", k, id));
            }
        }
        for (id, k) in &ids {
            let m = imp("get_module", || c.get_module(&ModuleId(*id)))?.map_err(|e| e.to_string())?;
            if (m.input_len(), m.output_len()) != (k % 5, k % 7) {
                return Err(format!("module {} is not the circuit registered {}-th", id, k));
            }
        }
        if st.num_module() != n {
            return Err(format!("num_module is {} after {} registrations", st.num_module(), n));
        }
        ch.evals(n as u64);
        ch.add_states(n as u64);
        ch.say(|| format!("{} registrations, distinct ids, all found", n));
        ch.outcome(&n);
        Ok(())
    };
    let shared = move |ch: &mut Ch| {
        let depth = if th { 6 } else { 5 };
        let mut st = new_store();
        let mut top = NXAOBoolCircuit::new(st.clone()).to_ref();
        let e = |e: BoolCircuitError| format!("an operation of a module failed: {}", e);
        let (id, mut c) = match ch.choose(3) {
            0 => imp("sub_circuit", || top.sub_circuit())?,
            m => {
                let c = NXAOBoolCircuit::new(st.clone()).to_ref();
                let id = if m == 1 { imp("register_module", || top.register_module(&c))? } else { imp("register_module", || st.register_module(&c))? };
                (id, c)
            }
        };
        let mut p = Prog::inputs(1);
        p.outs.push(0);
        let x = imp("input", || c.input())?.map_err(e)?;
        imp("output", || c.output(x))?.map_err(e)?;
        let mut last = x;
        let mut ids = vec![id];
        let mut handles = vec![c];
        for _ in 0..depth {
            match ch.choose(4) {
                0 => {
                    let id = ch.pick(&ids);
                    let h = if ch.choose(2) == 0 { imp("get_module", || st.get_module(&id))? } else { imp("get_module", || top.get_module(&id))? };
                    handles.push(h.map_err(e)?);
                }
                1 | 2 => {
                    // built on through any handle, the registered one or one looked up
                    let h = ch.choose(handles.len());
                    let h = &mut handles[h];
                    last = imp("not", || h.not(&last))?.map_err(e)?;
                    let s = p.push(Sig::Not(p.len() - 1));
                    if ch.choose(2) == 0 {
                        imp("output", || h.output(last))?.map_err(e)?;
                        p.outs.push(s);
                    }
                }
                _ => {
                    let h = ch.choose(handles.len());
                    let id = imp("register_module", || top.register_module(&handles[h]))?;
                    if ids.contains(&id) {
                        return Err(format!("the module id {} was in use already", id));
                    }
                    ids.push(id);
                }
            }
            ch.state(&(&p, ids.len(), handles.len()));
        }
        let n = imp("num_module", || st.num_module())?;
        if n != ids.len() {
            return Err(format!("num_module is {}, {} modules were registered", n, ids.len()));
        }
        let want = eval_outs(&[], &p, &lanes(1));
        let mut all: Vec<(String, Circ)> = handles.iter().enumerate().map(|(i, h)| (format!("handle {}", i), h.clone())).collect();
        for id in &ids {
            all.push((format!("module {} looked up by the storage", id), imp("get_module", || st.get_module(id))?.map_err(e)?));
            all.push((format!("module {} looked up by a circuit", id), imp("get_module", || top.get_module(id))?.map_err(e)?));
            let mut user = NXAOBoolCircuit::new(st.clone()).to_ref();
            let x = imp("input", || user.input())?.map_err(e)?;
            for g in imp("module", || user.module(id, &[x]))?.map_err(e)? {
                imp("output", || user.output(g))?.map_err(e)?;
            }
            all.push((format!("a call of module {}", id), user));
        }
        for (who, h) in all {
            check_all(&h, 1, &want, &who)?;
            ch.evals(2);
        }
        ch.say(|| format!("{}: {} handles, {} identifiers", p.show(), handles.len(), ids.len()));
        ch.outcome(&(p.outs.len(), ids.len()));
        Ok(())
    };
    vec![
        suite("shared handles", "all histories of 5 (6) operations on one module made in one of three ways: look it up by the storage or by a circuit, build on it through any handle held so far (with or without an output), register it once more through any handle; at the end every handle, every look-up and a call of every identifier shows all that was built", shared),
        suite("histories", "all histories of 5 (6) registrations over two storages and four circuits: through either circuit, the storage, sub_circuit filled later, a circuit of the other storage, a circuit registered before or a nested sub_circuit; after every step all identifiers are looked up everywhere and evaluated", hist),
        suite("many", "300, 1100 and 70000 registrations, by sub_circuit or register_module, all looked up at the end", many),
    ]
}

// ---------------------------------------------------------------- C07

/// All small programs of a shape list, in a fixed order.
fn all_programs(shapes: &[(usize, usize, usize)], ops: &'static [K], ordered: bool) -> Vec<Prog> {
    let out = std::sync::Mutex::new(vec![]);
    for &(n, g, o) in shapes {
        // enumerate with the explorer's own choice trees, single-threaded
        enumerate(&|ch: &mut Ch| {
            let mut p = gen_prog(ch, n, g, ops, ordered);
            gen_outs(ch, &mut p, o);
            out.lock().unwrap().push(p);
            Ok(())
        });
    }
    out.into_inner().unwrap()
}

type Cached = Vec<(Circ, usize, Vec<u64>)>;

fn same_function(a: &(Circ, usize, Vec<u64>), b: &(Circ, usize, Vec<u64>)) -> bool {
    a.1 == b.1 && a.2.len() == b.2.len() && a.2.iter().zip(&b.2).all(|(x, y)| (x ^ y) & mask(a.1) == 0)
}

fn c07_pairs(ch: &mut Ch, i: usize, all: &Cached, show: &dyn Fn(usize) -> String) -> R {
    let mut eq = 0;
    for j in 0..=i {
        let (x, y) = (&all[i], &all[j]);
        let a = imp("==", || x.0 == y.0)?;
        let b = imp("==", || y.0 == x.0)?;
        if a != b {
            return Err(format!("comparison is not symmetric:\n  {}\n  {}", show(i), show(j)));
        }
        if a {
            eq += 1;
            if !same_function(x, y) {
                return Err(format!("circuits with different functions compare equal:\n  {}\n  {}", show(i), show(j)));
            }
        } else if i == j {
            return Err(format!("a circuit does not compare equal to itself: {}", show(i)));
        }
    }
    let copy = imp("clone", || {
        let v: NXAOBoolCircuit = (*all[i].0.borrow()).clone();
        v.to_ref()
    })?;
    if !imp("==", || copy == all[i].0 && all[i].0 == copy)? {
        return Err(format!("a circuit does not compare equal to its copy: {}", show(i)));
    }
    ch.evals(i as u64 + 1);
    ch.add_states(i as u64 + 1);
    ch.outcome(&eq);
    ch.count("equal pairs", eq as u64);
    ch.say(|| format!("circuit {} against {} others, {} equal: {}", i, i, eq, show(i)));
    Ok(())
}

thread_local! {
    static CACHE: std::cell::RefCell<HashMap<String, std::rc::Rc<Cached>>> = std::cell::RefCell::new(HashMap::new());
}

/// Circuits are not shareable between threads: each worker builds its own set once.
fn cached(key: &str, build: &dyn Fn() -> Result<Cached, String>) -> Result<std::rc::Rc<Cached>, String> {
    if let Some(x) = CACHE.with(|c| c.borrow().get(key).cloned()) {
        return Ok(x);
    }
    let v = std::rc::Rc::new(build()?);
    // these circuits outlive the execution
    keep();
    CACHE.with(|c| c.borrow_mut().insert(key.to_string(), v.clone()));
    Ok(v)
}

fn twin(lib: &Lib, p: &Prog, c: &Circ) -> R {
    // the same operations from an empty storage
    let (d, _, _) = build_all(lib, p, How::Sub)?;
    if !imp("==", || d == *c && *c == d)? {
        return Err(format!("a circuit built by the same operations does not compare equal: {}", p.show()));
    }
    Ok(())
}

pub fn c07(th: bool) -> Vec<Suite> {
    let shapes: &'static [(usize, usize, usize)] = if th { &[(0, 1, 2), (0, 2, 2), (1, 0, 2), (1, 1, 2), (1, 2, 1), (2, 0, 3), (2, 1, 2), (2, 2, 1)] } else { &[(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 1, 2), (1, 2, 1), (2, 0, 2), (2, 1, 1), (2, 2, 1)] };
    let plain: std::sync::Arc<Vec<Prog>> = std::sync::Arc::new(all_programs(shapes, FULL, true));
    let mods: std::sync::Arc<Vec<(Lib, Prog)>> = std::sync::Arc::new(c07_module_circuits(th));
    let callers: std::sync::Arc<Vec<Prog>> = std::sync::Arc::new(c07_callers(th));
    let p2 = plain.clone();
    let m2 = mods.clone();
    vec![
        suite("pairs", &format!("all pairs of the {} circuits with up to 2 inputs, 2 gates and 2 outputs: equal implies same function, symmetric; each equal to itself, its copy and a rebuilt twin", plain.len()), move |ch| {
            let i = ch.choose(p2.len());
            let all = cached("plain", &|| {
                p2.iter().map(|p| {
                    let (c, _, _) = build_all(&vec![], p, How::Sub)?;
                    Ok((c, p.n_in(), eval_outs(&[], p, &lanes(p.n_in()))))
                }).collect()
            })?;
            twin(&vec![], &p2[i], &all[i].0)?;
            c07_pairs(ch, i, &all, &|k| p2[k].show())
        }),
        suite("pairs with modules", &format!("all pairs of {} circuits over storages of their own whose main circuits look alike and whose modules (called, nested, uncalled, registered in either order) differ in one gate, constant or output", mods.len()), move |ch| {
            let i = ch.choose(m2.len());
            let all = cached("mods", &|| {
                m2.iter().map(|(lib, p)| {
                    let (c, _, _) = build_all(lib, p, How::Sub)?;
                    Ok((c, p.n_in(), eval_outs(lib, p, &lanes(p.n_in()))))
                }).collect()
            })?;
            twin(&m2[i].0, &m2[i].1, &all[i].0)?;
            c07_pairs(ch, i, &all, &|k| format!("{} over modules {:?}", m2[k].1.show(), m2[k].0.iter().map(|m| m.show()).collect::<Vec<_>>()))
        }),
        suite("pairs of callers", &format!("all pairs of {} circuits that call modules of one library of six, one call with a gate or two calls, all arguments, single outputs, pairs of outputs or all; the same {} as bodies of a module that the main circuit calls", callers.len(), callers.len()), move |ch| {
            let wrapped = ch.flip();
            let i = ch.choose(callers.len());
            let make = |p: &Prog| {
                let mut lib = zoo();
                if !wrapped {
                    return (lib, p.clone());
                }
                lib.push(p.clone());
                let mut q = Prog::inputs(2);
                let args = (0..p.n_in() as u32).collect();
                q.outs = q.call(6, &lib, args);
                (lib, q)
            };
            let all = cached(if wrapped { "wrapped" } else { "callers" }, &|| {
                callers.iter().map(|p| {
                    let (lib, p) = make(p);
                    let (c, _, _) = build_all(&lib, &p, How::Sub)?;
                    Ok((c, p.n_in(), eval_outs(&lib, &p, &lanes(p.n_in()))))
                }).collect()
            })?;
            let (lib, p) = make(&callers[i]);
            twin(&lib, &p, &all[i].0)?;
            c07_pairs(ch, i, &all, &|k| format!("{}{}", if wrapped { "in a module: " } else { "" }, callers[k].show()))
        }),
        fam_suite("families", PLAIN, 20, |ch, f, n| c07_family(ch, f, n.min(5000))),
        fam_suite("module families", SMALL_MODULES, 12, |ch, f, n| c07_family(ch, f, n)),
    ]
}

/// Variants of a family member that differ in one place must not compare equal unless they are the same function.
fn c07_family(ch: &mut Ch, f: &Fam, n: usize) -> R {
    let (lib, p) = (f.make)(n);
    ch.state(&(f.name, n));
    let (c, _, _) = build_all(&lib, &p, How::Sub)?;
    twin(&lib, &p, &c)?;
    let vecs = vectors(p.n_in());
    let l = to_lanes(p.n_in(), &vecs);
    let want = eval_outs(&lib, &p, &l);
    let mut variants: Vec<(Lib, Prog)> = vec![];
    let len = p.sigs.len();
    for at in [0, len / 2, len.saturating_sub(1)] {
        if at < len {
            let mut q = p.clone();
            q.sigs[at] = match q.sigs[at].clone() {
                Sig::Xor(a, b) => Sig::Or(a, b),
                Sig::And(a, b) => Sig::Or(a, b),
                Sig::Or(a, b) => Sig::And(a, b),
                Sig::Const(v) => Sig::Const(!v),
                Sig::Not(a) => Sig::Xor(a, a),
                Sig::Eqv(a, b) => Sig::And(a, b),
                s => s,
            };
            variants.push((lib.clone(), q));
        }
    }
    if p.outs.len() > 1 {
        for at in [0, p.outs.len() / 2, p.outs.len() - 1] {
            let mut q = p.clone();
            q.outs[at] = q.outs[(at + 1) % q.outs.len()];
            variants.push((lib.clone(), q));
        }
        let mut q = p.clone();
        q.outs.pop();
        variants.push((lib.clone(), q));
    }
    for m in [0, lib.len() / 2, lib.len().saturating_sub(1)] {
        if m < lib.len() {
            let mut l2 = lib.clone();
            let k = l2[m].outs.len();
            if k > 0 {
                let o = l2[m].outs[k - 1];
                let z = l2[m].push(Sig::Not(o));
                l2[m].outs[k - 1] = z;
                variants.push((l2, p.clone()));
            }
            let mut l2 = lib.clone();
            for s in l2[m].sigs.iter_mut() {
                if let Sig::Xor(a, b) = *s {
                    *s = Sig::And(a, b);
                    break;
                }
                if let Sig::Const(v) = *s {
                    *s = Sig::Const(!v);
                    break;
                }
            }
            variants.push((l2, p.clone()));
        }
    }
    let mut eqs = 0;
    for (l2, q) in variants {
        let (d, _, _) = build_all(&l2, &q, How::Sub)?;
        let w2 = eval_outs(&l2, &q, &l);
        let a = imp("==", || c == d)?;
        let b = imp("==", || d == c)?;
        if a != b {
            return Err(format!("{}({}): comparison with a variant is not symmetric", f.name, n));
        }
        let m = if vecs.len() >= 64 { !0 } else { (1u64 << vecs.len()) - 1 };
        let differ = want.len() != w2.len() || want.iter().zip(&w2).any(|(x, y)| (x ^ y) & m != 0);
        if a {
            eqs += 1;
        }
        if a && differ {
            return Err(format!("{}({}): a variant with another function compares equal: {}", f.name, n, q.show()));
        }
        ch.evals(1);
    }
    ch.outcome(&(f.name, eqs));
    Ok(())
}

fn c07_callers(th: bool) -> Vec<Prog> {
    let lib = zoo();
    let out = std::sync::Mutex::new(vec![]);
    for n in 1..=2 {
        for (calls, gate, outs) in if th { [(1, true, 2), (2, false, 2)] } else { [(1, true, 2), (2, false, 1)] } {
            enumerate(&|ch: &mut Ch| {
                let p = gen_main(ch, &lib, n, calls, if calls == 1 || th { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2] }, gate && (n == 1 || th), outs);
                out.lock().unwrap().push(p);
                Ok(())
            });
        }
    }
    out.into_inner().unwrap()
}

fn c07_module_circuits(th: bool) -> Vec<(Lib, Prog)> {
    let bodies = all_programs(if th { &[(1, 1, 2), (1, 2, 1), (2, 1, 2)] } else { &[(1, 1, 2), (2, 1, 1)] }, NAXC, false);
    let bodies: Vec<Prog> = bodies.into_iter().filter(|b| !b.outs.is_empty()).collect();
    let mut v = vec![];
    for b in &bodies {
        let n = b.n_in() as u32;
        // called directly
        let lib = vec![b.clone()];
        let mut p = Prog::inputs(2);
        let o = p.call(0, &lib, (0..n).collect());
        p.outs = vec![o[0]];
        v.push((lib, p));
        // one level down
        let mut lib = vec![b.clone()];
        let mut m = Prog::inputs(2);
        let o = m.call(0, &lib, (0..n).collect());
        m.outs = vec![o[0]];
        lib.push(m);
        let mut p = Prog::inputs(2);
        let o = p.call(1, &lib, vec![0, 1]);
        p.outs = vec![o[0]];
        v.push((lib.clone(), p.clone()));
        // two levels down
        let mut m = Prog::inputs(2);
        let o = m.call(1, &lib, vec![1, 0]);
        m.outs = vec![o[0]];
        lib.push(m);
        let mut p = Prog::inputs(2);
        let o = p.call(2, &lib, vec![0, 1]);
        p.outs = vec![o[0]];
        v.push((lib, p));
    }
    // two modules registered in either order, both called, either first
    let mut two: Vec<Prog> = vec![];
    for s in [Sig::And(0, 1), Sig::Xor(0, 1), Sig::Or(0, 1)] {
        let mut m = Prog::inputs(2);
        let x = m.push(s);
        m.outs = vec![x];
        two.push(m);
    }
    for a in &two {
        for b in &two {
            for order in [[0usize, 1], [1, 0], [0, 0], [1, 1]] {
                let lib = vec![a.clone(), b.clone()];
                let mut p = Prog::inputs(2);
                let x = p.call(order[0], &lib, vec![0, 1]);
                let y = p.call(order[1], &lib, vec![0, 1]);
                p.outs = vec![x[0], y[0]];
                v.push((lib, p));
            }
        }
    }
    v
}
