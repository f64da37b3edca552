//! C28: an error names what was wrong.

use super::circuit::Hist;
use super::families::*;
use crate::explore::*;
use crate::model::*;
use circuit_converters::*;

type Made<T> = Result<T, BoolCircuitError>;

/// The call was rejected, naming one of the gates.
fn gate_named<T>(r: Made<T>, ids: &[GateId], what: &str) -> R {
    match r {
        Ok(_) => Err(format!("{} was not rejected", what)),
        Err(BoolCircuitError::UnknownGate(g)) if ids.contains(&g) => says(&BoolCircuitError::UnknownGate(g), &g.0.to_string(), what),
        Err(e) => Err(format!("{}: the error is {:?}, the unknown gates are {:?}", what, e, ids)),
    }
}

fn says<E: std::fmt::Display>(e: &E, word: &str, what: &str) -> R {
    let s = e.to_string();
    if s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == word) || s.contains(word) && word.chars().any(|c| !c.is_ascii_digit()) {
        Ok(())
    } else {
        Err(format!("{}: the message {:?} does not name {}", what, s, word))
    }
}

fn module_named<T>(r: Made<T>, id: ModuleId, what: &str) -> R {
    match r {
        Ok(_) => Err(format!("{} was not rejected", what)),
        Err(e @ BoolCircuitError::UnknownModule(m)) if m == id => says(&e, &m.0.to_string(), what),
        Err(e) => Err(format!("{}: the error is {:?}, the unknown module is {}", what, e, id)),
    }
}

/// Every way to name something the circuit does not have, and wrong numbers of values.
fn all_faults(ch: &mut Ch, c: &mut Circ, gates: &[GateId], bad: &[GateId], inputs: usize, outputs: usize, mods: &[(ModuleId, usize)], unknown_mods: &[ModuleId]) -> R {
    let n = std::cell::Cell::new(0u64);
    let one = |r: R| -> R {
        n.set(n.get() + 1);
        r
    };
    for b in bad.iter().copied() {
        one(gate_named(imp("get_gate", || c.get_gate(&b))?, &[b], &format!("get_gate({})", b)))?;
        one(gate_named(imp("not", || c.not(&b))?, &[b], &format!("NOT of {}", b)))?;
        one(gate_named(imp("identity", || c.identity(&b))?, &[b], &format!("identity of {}", b)))?;
        one(gate_named(imp("output", || c.output(b))?, &[b], &format!("output of {}", b)))?;
        let mut pairs: Vec<(GateId, GateId)> = vec![];
        for x in gates.iter().chain(bad.iter()).copied() {
            pairs.push((b, x));
            pairs.push((x, b));
        }
        for (l, r) in pairs {
            let wrong: Vec<GateId> = [l, r].into_iter().filter(|g| bad.contains(g)).collect();
            let at = format!("of {} and {}", l, r);
            one(gate_named(imp("xor", || c.xor(&l, &r))?, &wrong, &format!("XOR {}", at)))?;
            one(gate_named(imp("and", || c.and(&l, &r))?, &wrong, &format!("AND {}", at)))?;
            one(gate_named(imp("or", || c.or(&l, &r))?, &wrong, &format!("OR {}", at)))?;
            one(gate_named(imp("equivalent", || c.equivalent(&l, &r))?, &wrong, &format!("equivalence {}", at)))?;
        }
    }
    for (id, want) in mods.iter().copied() {
        if want > 0 && gates.len() > 0 {
            let good: Vec<GateId> = (0..want).map(|i| gates[i % gates.len()]).collect();
            for k in 0..want {
                for b in bad {
                    let mut args = good.clone();
                    args[k] = *b;
                    one(gate_named(imp("module", || c.module(&id, &args))?, &[*b], &format!("call of module {} with {:?}", id, args)))?;
                }
            }
            let args: Vec<GateId> = (0..want).map(|i| bad[i % bad.len()]).collect();
            one(gate_named(imp("module", || c.module(&id, &args))?, &args, &format!("call of module {} with {:?}", id, args)))?;
        }
        if gates.len() > 0 {
            for l in (0..want + 3).filter(|l| *l != want) {
                let args: Vec<GateId> = (0..l).map(|i| gates[i % gates.len()]).collect();
                match imp("module", || c.module(&id, &args))? {
                    Err(BoolCircuitError::InvalidModuleInputGate) => one(Ok(()))?,
                    x => return Err(format!("call of module {} ({} inputs) with the {} gates {:?}: {:?}", id, want, l, args, x)),
                }
            }
        }
    }
    for id in unknown_mods.iter().copied() {
        one(module_named(imp("get_module", || c.get_module(&id).map(|_| ()))?, id, &format!("get_module({})", id)))?;
        for l in 0..=gates.len().min(2) {
            let args = gates[..l].to_vec();
            one(module_named(imp("module", || c.module(&id, &args))?, id, &format!("call of module {} with {} gates", id, l)))?;
        }
    }
    for d in [0u64, 1, 7, 1 << 33] {
        let w = WireId(inputs as u64 + d);
        match imp("input_to_gate_id", || c.input_to_gate_id(&w))? {
            Err(e @ BoolCircuitError::UnknownInput(x)) if x == w => says(&e, &w.0.to_string(), "input_to_gate_id")?,
            x => return Err(format!("input_to_gate_id({}) with {} inputs: {:?}", w, inputs, x)),
        }
        let w = WireId(outputs as u64 + d);
        match imp("output_to_gate_id", || c.output_to_gate_id(&w))? {
            Err(e @ BoolCircuitError::UnknownOutput(x)) if x == w => says(&e, &w.0.to_string(), "output_to_gate_id")?,
            x => return Err(format!("output_to_gate_id({}) with {} outputs: {:?}", w, outputs, x)),
        }
        one(Ok(()))?;
    }
    for l in (0..inputs + 4).chain([2 * inputs + 5, inputs + 256, inputs + 65536]).filter(|l| *l != inputs) {
        let h = c.clone();
        match imp("evaluation", || NXAOBoolEvaluator::new(h).eval_output(&vec![true; l]))? {
            Err(e @ EvaluatorError::InvalidInputLen(..)) => {
                if !matches!(e, EvaluatorError::InvalidInputLen(x, y) if (x, y) == (l, inputs)) {
                    return Err(format!("evaluation of {} inputs with {} values: {:?}", inputs, l, e));
                }
                says(&e, &l.to_string(), "evaluation")?;
                says(&e, &inputs.to_string(), "evaluation")?;
            }
            x => return Err(format!("evaluation of {} inputs with {} values: {:?}", inputs, l, x)),
        }
        one(Ok(()))?;
    }
    ch.evals(n.get());
    Ok(())
}

pub fn circuits(th: bool) -> Vec<Suite> {
    let hist = move |ch: &mut Ch| {
        let mut h = Hist::new(super::circuit::small_lib(), How::Sub)?;
        for _ in 0..ch.choose(3) {
            h.prim(Sig::In)?;
        }
        for _ in 0..ch.choose(if th { 4 } else { 3 }) {
            h.step(ch, false)?;
        }
        let bad = h.b.unknown_ids();
        let gates: Vec<GateId> = h.b.order.clone();
        let mods: Vec<(ModuleId, usize)> = h.mids.iter().copied().zip(h.lib.iter().map(|m| m.n_in())).collect();
        let free: Vec<ModuleId> = {
            let top = h.mids.iter().map(|m| m.0).max().unwrap_or(0);
            [top + 1, top + 2, u64::MAX].map(ModuleId).to_vec()
        };
        ch.state(&h.p);
        ch.outcome(&(gates.len(), h.b.outputs.len()));
        all_faults(ch, &mut h.c, &gates, &bad, h.b.inputs.len(), h.b.outputs.len(), &mods, &free).map_err(|e| format!("{}\n  circuit: {}", e, h.p.show()))
    };
    let fams = move |ch: &mut Ch| {
        let all: Vec<&'static Fam> = PLAIN.iter().chain(MODULES.iter()).collect();
        let f = ch.pick(&all);
        let n = ch.pick(&[0usize, 1, 2, 3, 5, 8, 17, 64, 130]);
        let (lib, p) = (f.make)(n);
        let (mut c, b, mids) = build_all(&lib, &p, How::Sub)?;
        let some: Vec<GateId> = b.gates.iter().copied().take(2).chain(b.gates.last().copied()).collect();
        let top = b.gates.iter().map(|g| g.0).max().unwrap_or(0);
        let bad: Vec<GateId> = [top + 1, top + 2, top + 300, u64::MAX].map(GateId).to_vec();
        let mut mods: Vec<(ModuleId, usize)> = mids.iter().copied().zip(lib.iter().map(|m| m.n_in())).collect();
        mods.retain(|m| m.1 <= 40);
        mods.truncate(3);
        let mtop = mids.iter().map(|m| m.0).max().unwrap_or(0);
        ch.state(&(f.name, n));
        ch.outcome(&f.name);
        all_faults(ch, &mut c, &some, &bad, p.n_in(), p.outs.len(), &mods, &[ModuleId(mtop + 1), ModuleId(mtop + 400)]).map_err(|e| format!("{}({}): {}", f.name, n, e))
    };
    vec![
        suite("circuits", "all histories of up to 2 (3) operations from 0-2 inputs; then every operation and query with every unknown gate in every operand position (with every gate or unknown gate beside it), calls with one or all arguments unknown, with every wrong number of arguments up to 2 more, of three unknown modules; unknown inputs and outputs; every wrong number of input values: the error carries and its message names what is unknown, or the numbers given and wanted", hist),
        suite("families", "the same for every scaling family at 9 sizes", fams),
    ]
}
