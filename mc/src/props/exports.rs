//! C08, C09, C13, C27: exported files.

use super::builders::*;
use super::circuit::{gen_main, zoo, HOWS};
use super::families::*;
use super::gen::*;
use crate::bristol::*;
use crate::explore::*;
use crate::model::*;
use circuit_converters::*;
use std::collections::HashMap;
use std::io::BufWriter;
use std::rc::Rc;

/// What a check does with one circuit. `vecs`: input assignments, `want`: outputs of each.
type Check = fn(&mut Ch, &Subject, usize) -> R;

pub struct Subject {
    pub c: Circ,
    pub n: usize,
    pub what: String,
    pub vecs: Vec<Vec<bool>>,
    pub want: Vec<Vec<bool>>,
    /// the program, its gates and their values on `vecs`
    sigs: Option<(Prog, Vec<GateId>, Vec<u64>)>,
    /// builds it again, from nothing
    again: Option<Rc<dyn Fn() -> Result<Circ, String>>>,
}

impl Subject {
    fn of_prog(lib: &Lib, p: &Prog, how: How) -> Result<Subject, String> {
        let (c, b, _) = build_all(lib, p, how)?;
        let n = p.n_in();
        let vecs = vectors(n);
        let sigs = eval_sigs(lib, p, &to_lanes(n, &vecs));
        let l: Vec<u64> = p.outs.iter().map(|o| sigs[*o as usize]).collect();
        let want = (0..vecs.len()).map(|k| l.iter().map(|x| x >> k & 1 == 1).collect()).collect();
        let mut what = p.show();
        if !lib.is_empty() {
            what += &format!(" over {:?} {:?}", how, lib.iter().take(8).map(|m| m.show()).collect::<Vec<_>>());
        }
        let (lib2, p2) = (lib.clone(), p.clone());
        let again: Rc<dyn Fn() -> Result<Circ, String>> = Rc::new(move || build_all(&lib2, &p2, how).map(|x| x.0));
        Ok(Subject { c, n, what, vecs, want, sigs: Some((p.clone(), b.gates, sigs)), again: Some(again) })
    }
    /// outputs from the implementation's evaluator
    fn of_circ(c: Circ, what: &str, vecs: Vec<Vec<bool>>) -> Result<Subject, String> {
        let mut ev = NXAOBoolEvaluator::new(c.clone());
        let mut want = vec![];
        for v in &vecs {
            want.push(eval_with(&mut ev, v)?);
        }
        Ok(Subject { n: c.input_len(), c, what: what.into(), vecs, want, sigs: None, again: None })
    }
    /// sizes of the first group that a caller may ask for
    fn total(&self) -> Result<usize, String> {
        imp("a size", || self.c.input_len() + self.c.num_const())
    }
    fn firsts(&self) -> Result<Vec<usize>, String> {
        let t = self.total()?;
        let mut v: Vec<usize> = if t <= 8 { (0..=t).collect() } else { vec![self.n.min(t), 0, t, 1, t - 1, t / 2] };
        // the plain case first
        let i = v.iter().position(|x| *x == self.n).unwrap_or(0);
        v.swap(0, i);
        Ok(v)
    }
}

fn err(s: &Subject, text: &str, m: String) -> String {
    format!("{}\n  circuit: {}\n  text:\n{}", m, clip(&s.what), clip_text(text))
}

/// The header and the constants of an export.
fn well_formed(s: &Subject, first: usize, text: &str, consts: &[bool]) -> Result<BFile, String> {
    let f = valid(text, "the exported text").map_err(|e| err(s, text, e))?;
    let bad = |m: String| Err(err(s, text, m));
    let n_in = f.n_in();
    if f.in_groups.len() != 2 || f.in_groups[0] != first {
        return bad(format!("the input groups are {:?}, asked for a first group of {}", f.in_groups, first));
    }
    if f.out_groups != [s.want[0].len()] {
        return bad(format!("the output groups are {:?}, the circuit has {} outputs", f.out_groups, s.want[0].len()));
    }
    if n_in != s.n + consts.len() {
        return bad(format!("the file has {} inputs, the circuit {}, and {} constant values were returned", n_in, s.n, consts.len()));
    }
    Ok(f)
}

fn computes(s: &Subject, text: &str, consts: &[bool]) -> R {
    let f = match classify(text) {
        Class::Valid(f) => f,
        Class::Loose(_, Some(f)) => f,
        Class::Malformed(m) | Class::Loose(m, None) => return Err(err(s, text, format!("the exported text cannot be interpreted: {}", m))),
    };
    for (i, chunk) in s.vecs.chunks(64).enumerate() {
        let full: Vec<Vec<bool>> = chunk.iter().map(|v| [&v[..], consts].concat()).collect();
        if f.n_in() != s.n + consts.len() {
            return Err(err(s, text, format!("the text has {} inputs; the circuit has {} and {} constants were returned", f.n_in(), s.n, consts.len())));
        }
        let got = f.eval(&to_lanes(s.n + consts.len(), &full));
        for (k, v) in chunk.iter().enumerate() {
            let g: Vec<bool> = got.iter().map(|x| x >> k & 1 == 1).collect();
            if g != s.want[i * 64 + k] {
                return Err(err(s, text, format!(
                    "on inputs {} with constants {} the text computes {}, the circuit {}",
                    clip(&show_bits(v)), clip(&show_bits(consts)), clip(&show_bits(&g)), clip(&show_bits(&s.want[i * 64 + k]))
                )));
            }
        }
    }
    Ok(())
}

fn c08_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    // the same writer twice: both texts stand alone
    let mut w = BristolNXAOWriter::new(s.c.clone(), BufWriter::new(Vec::new()));
    let consts = export_with(&mut w, first).map_err(|e| err(s, "", e))?;
    imp("flush", || std::io::Write::flush(&mut w.writer))?.map_err(|e| e.to_string())?;
    let len = w.writer.get_ref().len();
    let consts2 = export_with(&mut w, first).map_err(|e| err(s, "", format!("second export of one writer: {}", e)))?;
    let bytes = imp("flush", || w.writer.into_inner())?.map_err(|e| e.to_string())?;
    let f = well_formed(s, first, &String::from_utf8_lossy(&bytes[..len]), &consts)?;
    well_formed(s, first, &String::from_utf8_lossy(&bytes[len..]), &consts2).map_err(|e| format!("second export of one writer: {}", e))?;
    ch.evals(2);
    ch.outcome(&(f.n_gates, f.n_wires, first, consts.len()));
    ch.say(|| format!("first group {}: header {} {}, {} constants", first, f.n_gates, f.n_wires, consts.len()));
    Ok(())
}

fn c09_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    // the same writer twice, then a writer that is given a map to fill
    let mut w = BristolNXAOWriter::new(s.c.clone(), BufWriter::new(Vec::new()));
    let c1 = export_with(&mut w, first).map_err(|e| err(s, "", e))?;
    let len = {
        imp("flush", || std::io::Write::flush(&mut w.writer))?.map_err(|e| e.to_string())?;
        w.writer.get_ref().len()
    };
    let c2 = export_with(&mut w, first).map_err(|e| err(s, "", e))?;
    let bytes = imp("flush", || w.writer.into_inner())?.map_err(|e| e.to_string())?;
    let t1 = String::from_utf8_lossy(&bytes[..len]).into_owned();
    let t2 = String::from_utf8_lossy(&bytes[len..]).into_owned();
    computes(s, &t1, &c1)?;
    computes(s, &t2, &c2).map_err(|e| format!("second export of one writer: {}", e))?;
    let mut map: HashMap<GateId, usize> = HashMap::new();
    let mut w = BristolNXAOWriter::new(s.c.clone(), BufWriter::new(Vec::new()));
    let c3 = imp("export", || w.write(first, Some(&mut map)))?.map_err(|e| err(s, "", format!("export failed: {}", e)))?;
    let bytes = imp("flush", || w.writer.into_inner())?.map_err(|e| e.to_string())?;
    computes(s, &String::from_utf8_lossy(&bytes), &c3).map_err(|e| format!("export that fills a map: {}", e))?;
    ch.evals(3 * s.vecs.len() as u64);
    if first == s.n {
        ch.add_states(s.vecs.len() as u64);
    }
    ch.outcome(&s.want);
    ch.say(|| format!("first group {}: text of {} lines computes the circuit on {} assignments, constants {}", first, t1.lines().count(), s.vecs.len(), show_bits(&c1)));
    Ok(())
}

/// c computes s.want on s.vecs followed by the constants.
fn same_function(s: &Subject, c: &Circ, consts: &[bool], text: &str, what: &str) -> R {
    let (i, o) = imp("a size", || (c.input_len(), c.output_len()))?;
    if i != s.n + consts.len() || o != s.want[0].len() {
        return Err(err(s, text, format!("{}: the circuit read has {} inputs and {} outputs, expected {} and {}", what, i, o, s.n + consts.len(), s.want[0].len())));
    }
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for (v, w) in s.vecs.iter().zip(&s.want) {
        let got = eval_with(&mut ev, &[&v[..], consts].concat()).map_err(|e| err(s, text, e))?;
        if got != *w {
            return Err(err(s, text, format!("{}: on inputs {} and constants {} it gives {}, the original {}", what, clip(&show_bits(v)), clip(&show_bits(consts)), clip(&show_bits(&got)), clip(&show_bits(w)))));
        }
    }
    Ok(())
}

fn c13_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    let (t1, k1) = export(&s.c, first).map_err(|e| err(s, "", e))?;
    let c1 = import(t1.as_bytes())?.map_err(|e| err(s, &t1, format!("reading back failed: {}", e)))?;
    same_function(s, &c1, &k1, &t1, "read back")?;
    let n1 = s.n + k1.len();
    let (t2, k2) = export(&c1, first.min(n1)).map_err(|e| err(s, &t1, format!("second export: {}", e)))?;
    let c2 = import(t2.as_bytes())?.map_err(|e| err(s, &t2, format!("reading back the second export failed: {}", e)))?;
    let k: Vec<bool> = [&k1[..], &k2[..]].concat();
    same_function(s, &c2, &k, &t2, "read back twice")?;
    ch.evals(2 * s.vecs.len() as u64);
    if first == s.n {
        ch.add_states(s.vecs.len() as u64);
    }
    ch.outcome(&s.want);
    ch.say(|| format!("first group {}: two round trips agree on {} assignments", first, s.vecs.len()));
    Ok(())
}

/// The map entries of one export against the text and the circuit.
fn map_right(s: &Subject, text: &str, consts: &[bool], map: &HashMap<GateId, usize>) -> R {
    let bad = |m: String| Err(err(s, text, m));
    let f = match classify(text) {
        Class::Valid(f) => f,
        Class::Loose(_, Some(f)) => f,
        Class::Malformed(m) | Class::Loose(m, None) => return bad(format!("the exported text cannot be interpreted: {}", m)),
    };
    if f.n_in() != s.n + consts.len() {
        return bad(format!("the text has {} inputs; the circuit has {} and {} constants were returned", f.n_in(), s.n, consts.len()));
    }
    // the gates the outputs depend on, by the circuit's own queries, with their operands
    let mut roots = vec![];
    for i in 0..s.want[0].len() {
        roots.push(imp("a query", || s.c.output_to_gate_id(&WireId(i as u64)))?.map_err(|e| err(s, text, e.to_string()))?);
    }
    let need = reachable_new(&s.c, &roots, &|_| false)?;
    let mut must: Vec<GateId> = need.clone();
    must.extend(imp("a query", || s.c.get_const_gates())?);
    for i in 0..s.n {
        if let Some(g) = imp("a query", || s.c.input_to_gate_id(&WireId(i as u64)))?.map_err(|e| err(s, text, e.to_string()))? {
            if map.get(&g) != Some(&i) {
                return bad(format!("input {} is gate {}, the map gives wire {:?}", i, g, map.get(&g)));
            }
        }
    }
    if let Some((p, gates, _)) = &s.sigs {
        let mut used = vec![false; p.sigs.len()];
        for o in &p.outs {
            used[*o as usize] = true;
        }
        for i in (0..p.sigs.len()).rev() {
            if matches!(p.sigs[i], Sig::In | Sig::Const(_)) {
                used[i] = true;
            }
            if used[i] {
                must.push(gates[i]);
                match &p.sigs[i] {
                    Sig::In | Sig::Const(_) => {}
                    Sig::Not(a) | Sig::Id(a) => used[*a as usize] = true,
                    Sig::Xor(a, b) | Sig::And(a, b) | Sig::Or(a, b) | Sig::Eqv(a, b) => {
                        used[*a as usize] = true;
                        used[*b as usize] = true;
                    }
                    Sig::Call(c, _) => p.calls[*c as usize].args.iter().for_each(|a| used[*a as usize] = true),
                }
            }
        }
    }
    for g in &must {
        if !map.contains_key(g) {
            return bad(format!("gate {} is not in the map ({} entries)", g, map.len()));
        }
    }
    let mut entries: Vec<(&GateId, &usize)> = map.iter().collect();
    entries.sort_by_key(|e| e.0 .0);
    for (g, w) in &entries {
        if **w >= f.n_wires {
            return bad(format!("the map gives wire {} for gate {}, the text has {}", w, g, f.n_wires));
        }
    }
    for (ci, chunk) in s.vecs.chunks(64).enumerate() {
        let full: Vec<Vec<bool>> = chunk.iter().map(|v| [&v[..], consts].concat()).collect();
        let wires = f.eval_wires(&to_lanes(s.n + consts.len(), &full));
        let mask = if chunk.len() == 64 { !0u64 } else { (1 << chunk.len()) - 1 };
        let val = |g: &GateId| map.get(g).map(|w| wires[*w]);
        for (g, w) in &entries {
            let gate = imp("a query", || s.c.get_gate(g))?.map_err(|e| err(s, text, format!("the map names gate {}: {}", g, e)))?;
            let want = match &gate {
                NXAOBoolGate::Input(_) | NXAOBoolGate::Module(_) => None,
                NXAOBoolGate::Const(x) => Some(if x.value { !0 } else { 0 }),
                NXAOBoolGate::Not(x) => val(&x.id).map(|a| !a),
                NXAOBoolGate::Xor(x) => val(&x.left_id).and_then(|a| val(&x.right_id).map(|b| a ^ b)),
                NXAOBoolGate::And(x) => val(&x.left_id).and_then(|a| val(&x.right_id).map(|b| a & b)),
                NXAOBoolGate::Or(x) => val(&x.left_id).and_then(|a| val(&x.right_id).map(|b| a | b)),
            };
            if let Some(x) = want {
                if (x ^ wires[**w]) & mask != 0 {
                    let k = ((x ^ wires[**w]) & mask).trailing_zeros() as usize;
                    return bad(format!("gate {} is {:?}; its wire {} does not carry its value on inputs {}", g, gate, w, clip(&show_bits(&chunk[k]))));
                }
            }
        }
        if let Some((_, gates, sigs)) = &s.sigs {
            for (i, g) in gates.iter().enumerate() {
                if let Some(x) = val(g) {
                    if (x ^ sigs[i]) & mask != 0 {
                        let k = ((x ^ sigs[i]) & mask).trailing_zeros() as usize;
                        return bad(format!("signal {} is gate {}; its wire {} does not carry its value on inputs {}", i, g, map[g], clip(&show_bits(&chunk[k]))));
                    }
                }
            }
        }
        for (o, g) in roots.iter().enumerate() {
            let x = val(g).unwrap();
            for k in 0..chunk.len() {
                if (x >> k & 1 == 1) != s.want[ci * 64 + k][o] {
                    return bad(format!("output {} is gate {}; its wire {} does not carry its value on inputs {}", o, g, map[g], clip(&show_bits(&chunk[k]))));
                }
            }
        }
    }
    Ok(())
}

fn c27_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    let mut w = BristolNXAOWriter::new(s.c.clone(), BufWriter::new(Vec::new()));
    let mut at = 0;
    let mut n = 0;
    for round in 0..2 {
        let mut map: HashMap<GateId, usize> = HashMap::new();
        let consts = imp("export", || w.write(first, Some(&mut map)))?.map_err(|e| err(s, "", format!("export failed: {}", e)))?;
        imp("flush", || std::io::Write::flush(&mut w.writer))?.map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&w.writer.get_ref()[at..]).into_owned();
        at = w.writer.get_ref().len();
        map_right(s, &text, &consts, &map).map_err(|e| if round == 0 { e } else { format!("second export of one writer: {}", e) })?;
        n = map.len();
    }
    ch.evals(2 * s.vecs.len() as u64);
    if first == s.n {
        ch.add_states(n as u64);
    }
    ch.outcome(&(n, &s.want));
    ch.say(|| format!("first group {}: a map of {} gates is right on {} assignments, twice", first, n, s.vecs.len()));
    Ok(())
}

/// Everything the circuit answers about itself, and the sizes of the modules it calls.
type Seen = (Vec<usize>, Vec<GateId>, Vec<Option<GateId>>, Vec<GateId>, Vec<(GateId, NXAOBoolGate, Vec<GateId>)>, Vec<(ModuleId, Vec<usize>)>);

fn seen(c: &Circ) -> Result<Seen, String> {
    let e = |e: BoolCircuitError| e.to_string();
    let sizes = |c: &Circ| imp("a size", || vec![c.input_len(), c.output_len(), c.num_gate(), c.num_const(), c.num_wire()]);
    let mut sz = sizes(c)?;
    let outs = (0..sz[1]).map(|i| imp("a query", || c.output_to_gate_id(&WireId(i as u64)))?.map_err(e)).collect::<Result<Vec<_>, _>>()?;
    let ins = (0..sz[0]).map(|i| imp("a query", || c.input_to_gate_id(&WireId(i as u64)))?.map_err(e)).collect::<Result<Vec<_>, _>>()?;
    let consts = imp("a query", || c.get_const_gates())?;
    let mut roots = outs.clone();
    roots.extend(ins.iter().flatten());
    roots.extend(&consts);
    let (mut gates, mut mods) = (vec![], vec![]);
    let mut all = reachable_new(c, &roots, &|_| false)?;
    all.sort_by_key(|g| g.0);
    for g in all {
        let gate = imp("a query", || c.get_gate(&g))?.map_err(e)?;
        let deps = imp("a query", || c.get_depended_gates(&g))?.map_err(e)?;
        if let NXAOBoolGate::Module(m) = &gate {
            if !mods.iter().any(|x: &(ModuleId, _)| x.0 == m.module_id) {
                let mc = imp("a query", || c.get_module(&m.module_id))?.map_err(e)?;
                mods.push((m.module_id, sizes(&mc)?));
            }
        }
        gates.push((g, gate, deps));
    }
    sz.push(imp("a size", || c.borrow().module_storage.num_module())?);
    Ok((sz, outs, ins, consts, gates, mods))
}

fn c29_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    let with = |w: &mut BristolNXAOWriter<Vec<u8>>, at: usize| {
        let mut map: HashMap<GateId, usize> = HashMap::new();
        let consts = imp("export", || w.write(first, Some(&mut map)))?.map_err(|e| err(s, "", format!("export failed: {}", e)))?;
        imp("flush", || std::io::Write::flush(&mut w.writer))?.map_err(|e| e.to_string())?;
        Ok::<_, String>((String::from_utf8_lossy(&w.writer.get_ref()[at..]).into_owned(), consts, map))
    };
    let writer = |c: &Circ| BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(1, Vec::new()));
    let before = seen(&s.c)?;
    let copy = imp("a copy", || {
        let v: NXAOBoolCircuit = (*s.c.borrow()).clone();
        v.to_ref()
    })?;
    let mut w = writer(&s.c);
    let one = with(&mut w, 0)?;
    let mut all = vec![("a second export by the writer", with(&mut w, one.0.len())?)];
    if seen(&w.c_ref)? != before {
        return Err(err(s, &one.0, "after the export the writer holds another circuit".into()));
    }
    all.push(("another writer", with(&mut writer(&s.c), 0)?));
    all.push(("a copy of the circuit", with(&mut writer(&copy), 0)?));
    let (t, k) = export(&s.c, first)?;
    all.push(("a writer given no map", (t, k, one.2.clone())));
    if let Some(again) = &s.again {
        for what in ["the circuit built again", "the circuit built a third time"] {
            let c = again()?;
            if imp("a comparison", || c == s.c || *c.borrow() == *s.c.borrow())? == false {
                return Err(err(s, "", format!("{} is not equal to it", what)));
            }
            all.push((what, with(&mut writer(&c), 0)?));
        }
    }
    for (what, x) in &all {
        if x.0 != one.0 {
            let l = one.0.lines().zip(x.0.lines()).position(|(a, b)| a != b);
            return Err(err(s, &one.0, format!("{} gives another text (first difference in line {:?}):\n{}", what, l.map(|l| l + 1), clip_text(&x.0))));
        }
        if x.1 != one.1 {
            return Err(err(s, &one.0, format!("{} gives the constants {}, the first export {}", what, show_bits(&x.1), show_bits(&one.1))));
        }
        if x.2 != one.2 {
            return Err(err(s, &one.0, format!("{} gives another wire map", what)));
        }
    }
    if seen(&s.c)? != before {
        return Err(err(s, &one.0, "the circuit answers differently after the export".into()));
    }
    let mut ev = NXAOBoolEvaluator::new(s.c.clone());
    for (v, w) in s.vecs.iter().zip(&s.want).take(4) {
        let got = eval_with(&mut ev, v)?;
        if got != *w {
            return Err(err(s, &one.0, format!("after the export it evaluates {} to {}, before to {}", clip(&show_bits(v)), clip(&show_bits(&got)), clip(&show_bits(w)))));
        }
    }
    // the text read twice
    let a = import(one.0.as_bytes())?.map_err(|e| err(s, &one.0, format!("reading back failed: {}", e)))?;
    let b = import(one.0.as_bytes())?.map_err(|e| err(s, &one.0, format!("reading back failed: {}", e)))?;
    if seen(&a)? != seen(&b)? {
        return Err(err(s, &one.0, "reading the text twice gives different circuits".into()));
    }
    ch.evals(all.len() as u64 + 1);
    ch.outcome(&(one.0.len(), &one.1));
    ch.say(|| format!("first group {}: {} exports give one text of {} bytes", first, all.len() + 1, one.0.len()));
    Ok(())
}

/// Gates and constants of the circuit with every call replaced by a copy of the module, as far as
/// the outputs depend on them: (gates, constants of it and of the modules called).
fn needed(c: &Circ, memo: &mut HashMap<*const NXAOBoolCircuit, (usize, usize)>) -> Result<(usize, usize), String> {
    let key: *const NXAOBoolCircuit = imp("borrow", || &*c.borrow() as *const NXAOBoolCircuit)?;
    if let Some(x) = memo.get(&key) {
        return Ok(*x);
    }
    let e = |e: BoolCircuitError| e.to_string();
    let outs = imp("a size", || c.output_len())?;
    let roots = (0..outs).map(|i| imp("a query", || c.output_to_gate_id(&WireId(i as u64)))?.map_err(e)).collect::<Result<Vec<_>, _>>()?;
    let (mut gates, mut consts) = (0, imp("a query", || c.get_const_gates())?.len());
    let mut calls = std::collections::HashSet::new();
    for g in reachable_new(c, &roots, &|_| false)? {
        match imp("a query", || c.get_gate(&g))?.map_err(e)? {
            NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => {}
            NXAOBoolGate::Module(m) => {
                if calls.insert(g.0 - m.out_index as u64) {
                    let mc = imp("a query", || c.get_module(&m.module_id))?.map_err(e)?;
                    let (a, b) = needed(&mc, memo)?;
                    gates += a;
                    consts += b;
                }
            }
            _ => gates += 1,
        }
    }
    memo.insert(key, (gates, consts));
    Ok((gates, consts))
}

fn c31_check(ch: &mut Ch, s: &Subject, first: usize) -> R {
    let (gates, mut consts) = needed(&s.c, &mut HashMap::new())?;
    // calls that no output depends on count as well
    consts = consts.max(imp("a size", || s.c.num_const())?);
    let outs = s.want[0].len();
    let mut w = BristolNXAOWriter::new(s.c.clone(), BufWriter::new(Vec::new()));
    let mut at = 0;
    for round in ["", "second export of one writer: "] {
        let k = export_with(&mut w, first).map_err(|e| err(s, "", format!("{}{}", round, e)))?;
        imp("flush", || std::io::Write::flush(&mut w.writer))?.map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&w.writer.get_ref()[at..]).into_owned();
        at = w.writer.get_ref().len();
        let mut lines = [0, 0];
        for l in text.lines().skip(3).filter(|l| !l.trim().is_empty()) {
            lines[matches!(l.split_whitespace().last(), Some("EQW") | Some("EQ")) as usize] += 1;
        }
        if lines[0] > gates {
            return Err(err(s, &text, format!("{}the text has {} lines of NOT, XOR, AND, OR; the outputs depend on {} such gates", round, lines[0], gates)));
        }
        if lines[1] > outs {
            return Err(err(s, &text, format!("{}the text copies {} wires, the circuit has {} outputs", round, lines[1], outs)));
        }
        if k.len() > consts {
            return Err(err(s, &text, format!("{}the text takes {} constants, the circuit and its calls have {}", round, k.len(), consts)));
        }
        ch.outcome(&(lines, k.len(), gates));
        ch.say(|| format!("{}first group {}: {} gate lines for {} gates, {} copies for {} outputs, {} constants", round, first, lines[0], gates, lines[1], outs, k.len()));
    }
    ch.evals(2);
    Ok(())
}

pub fn grown(ch: &mut Ch, th: bool, check: Check) -> R {
    // a module that goes on growing after it was called, by another module or by the circuit
    let e = |e: BoolCircuitError| e.to_string();
    let nested = ch.flip();
    let mut lib = vec![Prog::inputs(1)];
    lib[0].outs = vec![0];
    let mut c = NXAOBoolCircuit::new(ModuleStorageRef::new()).to_ref();
    let (mid, mut sub) = imp("sub_circuit", || c.sub_circuit())?;
    let mut sg = vec![imp("input", || sub.input())?.map_err(e)?];
    imp("output", || sub.output(sg[0]))?.map_err(e)?;
    let mut p = Prog::inputs(2);
    let mut g = vec![imp("input", || c.input())?.map_err(e)?, imp("input", || c.input())?.map_err(e)?];
    let mut mids = vec![mid];
    if nested {
        // x -> f(not x), f(x)
        let mut m = Prog::inputs(1);
        let x = m.push(Sig::Not(0));
        let a = m.call(0, &lib, vec![x]);
        let b = m.call(0, &lib, vec![0]);
        m.outs = vec![a[0], b[0]];
        lib.push(m);
        let (mid, mut mc) = imp("sub_circuit", || c.sub_circuit())?;
        let x = imp("input", || mc.input())?.map_err(e)?;
        let y = imp("not", || mc.not(&x))?.map_err(e)?;
        let a = imp("call", || mc.module(&mids[0], &[y]))?.map_err(e)?;
        let b = imp("call", || mc.module(&mids[0], &[x]))?.map_err(e)?;
        imp("output", || mc.output(a[0]))?.map_err(e)?;
        imp("output", || mc.output(b[0]))?.map_err(e)?;
        mids.push(mid);
    }
    let top = mids.len() - 1;
    for _ in 0..if th { 6 } else { 5 } {
        let last = p.len() - 1;
        let gl = g[last as usize];
        match ch.choose(6) {
            0 => {
                let o = p.call(top, &lib, vec![last]);
                let r = imp("call", || c.module(&mids[top], &[gl]))?.map_err(e)?;
                if r.len() != o.len() {
                    return Err(format!("a call returned {} outputs, the module has {}", r.len(), o.len()));
                }
                g.extend(&r);
            }
            1 => {
                p.push(Sig::And(0, last));
                g.push(imp("and", || c.and(&g[0], &gl))?.map_err(e)?);
            }
            2 => {
                let l = lib[0].len() - 1;
                lib[0].push(Sig::Xor(0, l));
                let r = imp("xor", || sub.xor(&sg[0], &sg[l as usize]))?.map_err(e)?;
                sg.push(r);
            }
            3 => {
                lib[0].push(Sig::Const(true));
                let r = imp("constant", || sub.constant(true))?.map_err(e)?;
                sg.push(r);
            }
            4 => {
                let l = lib[0].len() - 1;
                lib[0].outs.push(l);
                imp("output", || sub.output(sg[l as usize]))?.map_err(e)?;
            }
            _ => {
                p.push(Sig::Const(true));
                g.push(imp("constant", || c.constant(true))?.map_err(e)?);
            }
        }
    }
    p.outs = match ch.choose(2) {
        0 => vec![p.len() - 1],
        _ => (0..p.len()).collect(),
    };
    for o in &p.outs {
        imp("output", || c.output(g[*o as usize]))?.map_err(e)?;
    }
    let vecs = vectors(2);
    let sigs = eval_sigs(&lib, &p, &to_lanes(2, &vecs));
    let want = (0..vecs.len()).map(|k| p.outs.iter().map(|o| sigs[*o as usize] >> k & 1 == 1).collect()).collect();
    let what = format!("{} over, in the end, {:?}", p.show(), lib.iter().map(|m| m.show()).collect::<Vec<_>>());
    let s = Subject { c, n: 2, what, vecs, want, sigs: Some((p, g, sigs)), again: None };
    ch.state(&s.what);
    ch.say(|| s.what.clone());
    check(ch, &s, 2)
}

fn suites(th: bool, check: Check) -> Vec<Suite> {
    let small = move |ch: &mut Ch| {
        let shapes: &[(usize, usize, usize)] = if th {
            &[(0, 0, 0), (1, 0, 3), (2, 0, 3), (0, 1, 3), (0, 2, 3), (0, 3, 2), (1, 1, 3), (1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 2, 3), (2, 3, 1), (3, 1, 2), (3, 2, 2)]
        } else {
            &[(0, 0, 0), (1, 0, 3), (2, 0, 3), (0, 1, 3), (0, 2, 2), (1, 1, 3), (1, 2, 2), (2, 1, 3), (2, 2, 2), (3, 1, 2)]
        };
        let (n, g, o) = ch.pick(shapes);
        let mut p = gen_prog(ch, n, g, FULL, th || g < 2);
        gen_outs(ch, &mut p, o);
        let s = Subject::of_prog(&vec![], &p, How::Sub)?;
        ch.say(|| s.what.clone());
        let first = ch.pick(&s.firsts()?);
        check(ch, &s, first)
    };
    let shared = move |ch: &mut Ch| {
        let (n, g) = ch.pick(if th { &[(1usize, 4usize), (2, 4), (1, 5)] } else { &[(1usize, 4usize), (2, 3)] });
        let mut p = gen_prog(ch, n, g, NAXC, false);
        let last = p.len() - 1;
        match ch.choose(3) {
            0 => p.outs = vec![last],
            1 => p.outs = vec![last, ch.choose(last as usize + 1) as u32],
            _ => p.outs = vec![ch.choose(last as usize + 1) as u32, last],
        }
        let s = Subject::of_prog(&vec![], &p, How::Sub)?;
        ch.say(|| s.what.clone());
        check(ch, &s, n)
    };
    let outs = move |ch: &mut Ch| {
        let lib = zoo();
        let mut p = Prog::inputs(2);
        if ch.flip() {
            let a = p.push(Sig::Xor(0, 1));
            let o = p.call(3, &lib, vec![a, 0]);
            let c = p.push(Sig::Const(true));
            p.push(Sig::And(o[0], c));
            p.push(Sig::Not(o[1]));
        } else {
            let c = p.push(Sig::Const(false));
            let o = p.call(2, &lib, vec![c]);
            p.push(Sig::Or(o[0], 1));
            p.push(Sig::Id(0));
        }
        gen_outs(ch, &mut p, if th { 4 } else { 3 });
        let s = Subject::of_prog(&lib, &p, How::Sub)?;
        ch.say(|| s.what.clone());
        let first = if p.outs.len() <= 2 { ch.pick(&s.firsts()?) } else { 2 };
        check(ch, &s, first)
    };
    let calls = move |ch: &mut Ch| {
        let lib = zoo();
        let how = ch.pick(HOWS);
        let n_in = 1 + ch.choose(2);
        let calls = 1 + ch.choose(2);
        let gate = th || calls == 1;
        let p = gen_main(ch, &lib, n_in, calls, &[0, 1, 2, 3, 4, 5], gate, if th && calls == 1 { 2 } else { 1 });
        let s = Subject::of_prog(&lib, &p, how)?;
        ch.say(|| s.what.clone());
        let first = if calls == 1 { ch.pick(&s.firsts()?) } else { s.n };
        check(ch, &s, first)
    };
    let bodies = move |ch: &mut Ch| {
        // every small module body, called by a main circuit and by a module in between
        let n = 2 - ch.choose(3);
        let g = ch.choose(3);
        let mut m = gen_prog(ch, n, g, NAXC, false);
        if m.sigs.is_empty() {
            m.push(Sig::Const(ch.flip()));
        }
        for _ in 0..1 + ch.choose(2) {
            let o = ch.choose(m.sigs.len());
            m.outs.push((m.sigs.len() - 1 - o) as u32);
        }
        let mut lib = vec![m];
        let mut q = Prog::inputs(1);
        let o = q.call(0, &lib, vec![0; n]);
        let x = q.push(Sig::Not(o[0]));
        q.outs = vec![x, *o.last().unwrap(), 0];
        lib.push(q);
        let mut p = Prog::inputs(2);
        let a = p.call(0, &lib, (0..n as u32).rev().collect());
        let b = p.call(1, &lib, vec![a[0]]);
        let z = p.push(Sig::Xor(b[0], 1));
        match ch.choose(3) {
            0 => p.outs = vec![z],
            1 => p.outs = b.iter().chain(&a).copied().collect(),
            _ => p.outs = vec![a[0], z, b[2], b[1]],
        }
        let s = Subject::of_prog(&lib, &p, How::Sub)?;
        ch.say(|| s.what.clone());
        let first = if th { ch.pick(&s.firsts()?) } else { s.n };
        check(ch, &s, first)
    };
    let fams = move |ch: &mut Ch| {
        let mut all: Vec<(&'static Fam, usize)> = vec![];
        for f in PLAIN {
            for n in sizes(f.max, if th { 100 } else { 34 }) {
                all.push((f, n));
            }
        }
        for f in EXPORT_MODULES {
            for n in sizes(f.max, if th { 66 } else { 20 }) {
                all.push((f, n));
            }
        }
        all.sort_by_key(|x| x.1);
        let (f, n) = ch.pick(&all);
        let (lib, p) = (f.make)(n);
        ch.state(&(f.name, n));
        let mut s = Subject::of_prog(&lib, &p, How::Sub)?;
        s.what = format!("{}({})", f.name, n);
        ch.say(|| s.what.clone());
        let firsts = s.firsts()?;
        let first = if n > 300 { firsts[0] } else { ch.pick(&firsts) };
        check(ch, &s, first)
    };
    let grown = move |ch: &mut Ch| grown(ch, th, check);
    let cat = std::sync::Arc::new(catalogue(th));
    let names = cat.len();
    let built = move |ch: &mut Ch| {
        let i = ch.choose(cat.len());
        let (name, make) = &cat[i];
        let c = make()?;
        let n = imp("a size", || c.input_len())?;
        let mut vecs = if n <= 6 { (0..1u64 << n).map(|k| bits(k, n)).collect() } else { vectors(n) };
        if n > 6 {
            // words of different sizes
            for m in [3usize, 5, 7] {
                vecs.push((0..n).map(|i| (i * i + i / m) % m < m / 2).collect());
            }
        }
        if name.starts_with("aes") || name.starts_with("mult2") || name.starts_with("div") {
            vecs.truncate(4);
        }
        let mut s = Subject::of_circ(c, name, vecs)?;
        let make = make.clone();
        s.again = Some(Rc::new(move || make()));
        ch.state(name);
        ch.say(|| name.clone());
        let firsts = s.firsts()?;
        let first = if SHIPPED.contains(&&name[..]) { n / 2 } else { ch.pick(&firsts) };
        check(ch, &s, first)
    };
    vec![
        suite("circuits", "all circuits with up to 3 inputs, 2 (thorough 3) gates over NOT, XOR, AND, OR, constants, equivalence, identity, output lists up to 2-3 entries with repeats, inputs and constants; every first-group size; all assignments", small),
        suite("sharing", "all circuits of 3-5 NOT/AND/XOR/constant gates, the last gate an output alone or with any other signal", shared),
        suite("output lists", "two circuits with calls, constants and gates nobody reads, all output lists up to 3 (4) entries", outs),
        suite("calls", "six modules of every kind, 1-2 calls with all arguments, single signals or all of them as outputs, modules from sub_circuit, register_module or another storage; every first-group size for one call", calls),
        suite("module bodies", "all module bodies with up to 2 inputs, 2 gates and 1-2 outputs, called directly and through a module", bodies),
        suite("grown modules", "all histories of 5 (6) steps that call a module (directly or through another), extend it by a gate, a constant or an output, and extend the circuit; exported at the end", grown),
        suite("families", "scaling families up to 70000 gates, inputs or outputs and 1100 calls; every size up to 34 (100) and the sizes around powers of two; first groups of every size up to 8, else the edges and the middle", fams),
        suite("builders", &format!("{} circuits from the integer, bit-vector and field builders and the shipped files; first groups of every kind", names), built),
    ]
}


pub fn c08(th: bool) -> Vec<Suite> {
    suites(th, c08_check)
}
pub fn c09(th: bool) -> Vec<Suite> {
    suites(th, c09_check)
}
pub fn c13(th: bool) -> Vec<Suite> {
    suites(th, c13_check)
}
pub fn c27(th: bool) -> Vec<Suite> {
    suites(th, c27_check)
}
pub fn c29(th: bool) -> Vec<Suite> {
    suites(th, c29_check)
}
pub fn c31(th: bool) -> Vec<Suite> {
    suites(th, c31_check)
}
