//! C24: short programs over the builders, against an interpreter of the operations' meanings.

use super::builders::*;
use crate::explore::*;
use crate::model::*;
use crate::netlist::Net;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type E = BuildCircuitError;
/// value on every assignment of the inputs
type M = Vec<u32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Alphabet {
    pub ints: usize,
    pub vecs: usize,
    pub gates: usize,
    pub fps: usize,
    /// constants, shift amounts and paddings: few or all
    pub full: bool,
    /// a second integer configuration in the same circuit, used in turns
    pub two_configs: bool,
    pub conversions: bool,
    /// the modulus
    pub p: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
    Int2(u8, usize, usize),
    IntNeg(usize),
    IntAssign(u8, usize, usize),
    IntClone(u8, usize, usize),
    Shl(usize, usize),
    Shr(usize, usize),
    Const(u32),
    Cmp(u8, usize, usize),
    Vec2(u8, usize, usize),
    VecNot(usize),
    VecAssign(u8, usize, usize),
    VecClone(u8, usize, usize),
    VecCmp(u8, usize, usize),
    Mux(usize, usize, usize),
    IntFromGate(usize),
    IntFromGates(usize, usize),
    VecFromGates(usize, usize),
    IntFromVec(usize),
    VecFromInt(usize),
    Gate2(u8, usize, usize),
    GateNot(usize),
    /// low bit of an integer as a gate
    BitOf(usize, usize),
    Fp2(u8, usize, usize),
    FpNeg(usize),
    FpAssign(u8, usize, usize),
    FpCmp(u8, usize, usize),
    FpConst(u32),
    /// an input declared after other statements
    NewInt,
}

struct St<const N: usize> {
    c: Circ,
    ic: Vec<IntCfg<N>>,
    bc: Option<BitsCfg<N>>,
    fc: Option<FpCfg<N>>,
    ints: Vec<(Int<N>, M)>,
    vecs: Vec<(Bits<N>, M)>,
    gates: Vec<(GateId, M)>,
    fps: Vec<(Fp<N>, M)>,
    n_in: usize,
    total: usize,
}

fn statements<const N: usize>(a: &Alphabet, s: &St<N>) -> Vec<S> {
    let mut v = vec![];
    let (ni, nv, ng, nf) = (s.ints.len(), s.vecs.len(), s.gates.len(), s.fps.len());
    let top = 1u32 << N;
    for x in 0..ni {
        for y in 0..ni {
            for o in 0..3 {
                v.push(S::Int2(o, x, y));
                v.push(S::IntAssign(o, x, y));
                if a.full {
                    v.push(S::IntClone(o, x, y));
                }
            }
            for o in 0..6 {
                if a.full || o == 2 || o == 5 {
                    v.push(S::Cmp(o, x, y));
                }
            }
        }
        v.push(S::IntNeg(x));
        let ks: Vec<usize> = if a.full { (0..=N + 1).collect() } else { vec![1, N] };
        for k in ks {
            v.push(S::Shl(x, k));
            v.push(S::Shr(x, k));
        }
        if a.conversions {
            v.push(S::VecFromInt(x));
            v.push(S::BitOf(x, N - 1));
        }
    }
    if ni > 0 {
        for k in if a.full { (0..top).collect::<Vec<_>>() } else { vec![1, top - 1] } {
            v.push(S::Const(k));
        }
        if s.n_in + N <= 8 {
            v.push(S::NewInt);
        }
        for g in 0..ng {
            v.push(S::IntFromGate(g));
        }
        if N > 1 {
            for g in 0..ng {
                for h in 0..ng {
                    v.push(S::IntFromGates(g, h));
                }
            }
        }
    }
    for x in 0..nv {
        for y in 0..nv {
            for o in 0..3 {
                v.push(S::Vec2(o, x, y));
                v.push(S::VecAssign(o, x, y));
                if a.full {
                    v.push(S::VecClone(o, x, y));
                }
            }
            v.push(S::VecCmp(0, x, y));
            v.push(S::VecCmp(1, x, y));
            for g in 0..ng {
                v.push(S::Mux(x, y, g));
            }
        }
        v.push(S::VecNot(x));
        if a.conversions && ni > 0 {
            v.push(S::IntFromVec(x));
        }
    }
    if nv > 0 && N > 1 {
        for g in 0..ng {
            for h in 0..ng {
                v.push(S::VecFromGates(g, h));
            }
        }
    }
    if a.conversions || a.gates > 0 {
        for g in 0..ng {
            for h in 0..ng {
                if a.full || g < h {
                    for o in 0..3 {
                        v.push(S::Gate2(o, g, h));
                    }
                }
            }
            v.push(S::GateNot(g));
        }
    }
    for x in 0..nf {
        for y in 0..nf {
            for o in 0..2 {
                v.push(S::Fp2(o, x, y));
                v.push(S::FpAssign(o, x, y));
                v.push(S::FpCmp(o, x, y));
            }
        }
        v.push(S::FpNeg(x));
    }
    if nf > 0 {
        v.push(S::FpConst(0));
        v.push(S::FpConst(1));
        if a.p > 2 {
            v.push(S::FpConst(a.p - 1));
        }
    }
    v
}

fn zip(x: &M, y: &M, f: impl Fn(u32, u32) -> u32) -> M {
    x.iter().zip(y).map(|(a, b)| f(*a, *b)).collect()
}

fn arith(o: u8, n: usize, x: u32, y: u32) -> u32 {
    let m = (1u32 << n) - 1;
    match o {
        0 => x.wrapping_add(y) & m,
        1 => x.wrapping_sub(y) & m,
        _ => x.wrapping_mul(y) & m,
    }
}

fn sx(n: usize, x: u32) -> i32 {
    ((x << (32 - n)) as i32) >> (32 - n)
}

fn cmp(o: u8, n: usize, x: u32, y: u32) -> u32 {
    let (x, y) = (sx(n, x), sx(n, y));
    (match o {
        0 => x == y,
        1 => x != y,
        2 => x < y,
        3 => x <= y,
        4 => x > y,
        _ => x >= y,
    }) as u32
}

fn bitop(o: u8, x: u32, y: u32) -> u32 {
    match o {
        0 => x & y,
        1 => x | y,
        _ => x ^ y,
    }
}

fn step<const N: usize>(s: &mut St<N>, st: S, turn: usize, p: u32) -> Result<(), E> {
    let m = (1u32 << N) - 1;
    // the configuration new values are made with
    let cfg = s.ic.get(turn % s.ic.len().max(1)).cloned();
    // the value under the other configuration
    let at = |s: &St<N>, x: usize| -> Result<Int<N>, E> {
        match (&cfg, s.ic.len()) {
            (Some(c), 2) => Int::<N>::from_gate_ids(s.ints[x].0.val_le.to_vec(), c),
            _ => Ok(s.ints[x].0.clone()),
        }
    };
    match st {
        S::Int2(o, x, y) => {
            let (a, b) = (at(s, x)?, &s.ints[y].0);
            let r = match o {
                0 => &a + b,
                1 => &a - b,
                _ => &a * b,
            };
            let mm = zip(&s.ints[x].1, &s.ints[y].1, |a, b| arith(o, N, a, b));
            s.ints.push((r, mm));
        }
        S::IntNeg(x) => {
            let r = -&at(s, x)?;
            let mm = s.ints[x].1.iter().map(|a| a.wrapping_neg() & m).collect();
            s.ints.push((r, mm));
        }
        S::IntAssign(o, x, y) | S::IntClone(o, x, y) => {
            let mut r = s.ints[x].0.clone();
            {
                // a copy only where x is also the second operand
                let keep;
                let b = if x == y {
                    keep = s.ints[y].0.clone();
                    &keep
                } else {
                    &s.ints[y].0
                };
                match o {
                    0 => r += b,
                    1 => r -= b,
                    _ => r *= b,
                }
            }
            let mm = zip(&s.ints[x].1, &s.ints[y].1, |a, b| arith(o, N, a, b));
            if matches!(st, S::IntAssign(..)) {
                s.ints[x] = (r, mm);
            } else {
                s.ints.push((r, mm));
            }
        }
        S::Shl(x, k) => {
            let r = at(s, x)?.shift_left(k)?;
            let mm = s.ints[x].1.iter().map(|a| if k >= N { 0 } else { a << k & m }).collect();
            s.ints.push((r, mm));
        }
        S::Shr(x, k) => {
            let r = at(s, x)?.shift_right(k)?;
            let mm = s.ints[x].1.iter().map(|a| (sx(N, *a) >> k.min(31)) as u32 & m).collect();
            s.ints.push((r, mm));
        }
        S::Const(v) => {
            let c = cfg.as_ref().unwrap();
            let r = match v {
                0 => Int::<N>::zero(c)?,
                1 => Int::<N>::one(c)?,
                _ => Int::<N>::from_biguint(&BigUint::from(v), c)?,
            };
            s.ints.push((r, vec![v; s.total]));
        }
        S::Cmp(o, x, y) => {
            let (a, b) = (at(s, x)?, &s.ints[y].0);
            let r = match o {
                0 => a.eq(b)?,
                1 => a.neq(b)?,
                2 => a.less(b)?,
                3 => a.less_or_eq(b)?,
                4 => a.larger(b)?,
                _ => a.larger_or_eq(b)?,
            };
            let mm = zip(&s.ints[x].1, &s.ints[y].1, |a, b| cmp(o, N, a, b));
            s.gates.push((r, mm));
        }
        S::Vec2(o, x, y) => {
            let (a, b) = (&s.vecs[x].0, &s.vecs[y].0);
            let r = match o {
                0 => a & b,
                1 => a | b,
                _ => a ^ b,
            };
            let mm = zip(&s.vecs[x].1, &s.vecs[y].1, |a, b| bitop(o, a, b));
            s.vecs.push((r, mm));
        }
        S::VecNot(x) => {
            let r = !&s.vecs[x].0;
            let mm = s.vecs[x].1.iter().map(|a| !a & m).collect();
            s.vecs.push((r, mm));
        }
        S::VecAssign(o, x, y) | S::VecClone(o, x, y) => {
            let mut r = s.vecs[x].0.clone();
            {
                let keep;
                let b = if x == y {
                    keep = s.vecs[y].0.clone();
                    &keep
                } else {
                    &s.vecs[y].0
                };
                match o {
                    0 => r &= b,
                    1 => r |= b,
                    _ => r ^= b,
                }
            }
            let mm = zip(&s.vecs[x].1, &s.vecs[y].1, |a, b| bitop(o, a, b));
            if matches!(st, S::VecAssign(..)) {
                s.vecs[x] = (r, mm);
            } else {
                s.vecs.push((r, mm));
            }
        }
        S::VecCmp(o, x, y) => {
            let (a, b) = (&s.vecs[x].0, &s.vecs[y].0);
            let r = if o == 0 { a.eq(b)? } else { a.neq(b)? };
            let mm = zip(&s.vecs[x].1, &s.vecs[y].1, |a, b| ((a == b) == (o == 0)) as u32);
            s.gates.push((r, mm));
        }
        S::Mux(x, y, g) => {
            let r = s.vecs[x].0.mux(&s.vecs[y].0, &s.gates[g].0)?;
            let mm = (0..s.total).map(|i| if s.gates[g].1[i] == 0 { s.vecs[x].1[i] } else { s.vecs[y].1[i] }).collect();
            s.vecs.push((r, mm));
        }
        S::IntFromGate(g) => {
            let r = Int::<N>::from_gate_ids(vec![s.gates[g].0], cfg.as_ref().unwrap())?;
            let mm = s.gates[g].1.clone();
            s.ints.push((r, mm));
        }
        S::IntFromGates(g, h) => {
            let r = Int::<N>::from_gate_ids(vec![s.gates[g].0, s.gates[h].0], cfg.as_ref().unwrap())?;
            let mm = zip(&s.gates[g].1, &s.gates[h].1, |a, b| a | b << 1);
            s.ints.push((r, mm));
        }
        S::VecFromGates(g, h) => {
            let r = Bits::<N>::from_gate_ids(vec![s.gates[g].0, s.gates[h].0], s.bc.as_ref().unwrap())?;
            let mm = zip(&s.gates[g].1, &s.gates[h].1, |a, b| a | b << 1);
            s.vecs.push((r, mm));
        }
        S::IntFromVec(x) => {
            let r = Int::<N>::from_gate_ids(s.vecs[x].0.bits.to_vec(), cfg.as_ref().unwrap())?;
            let mm = s.vecs[x].1.clone();
            s.ints.push((r, mm));
        }
        S::VecFromInt(x) => {
            let r = Bits::<N>::from_gate_ids(s.ints[x].0.val_le.to_vec(), s.bc.as_ref().unwrap())?;
            let mm = s.ints[x].1.clone();
            s.vecs.push((r, mm));
        }
        S::Gate2(o, g, h) => {
            let (a, b) = (s.gates[g].0, s.gates[h].0);
            let r = match o {
                0 => s.c.and(&a, &b)?,
                1 => s.c.or(&a, &b)?,
                _ => s.c.xor(&a, &b)?,
            };
            let mm = zip(&s.gates[g].1, &s.gates[h].1, |a, b| bitop(o, a, b));
            s.gates.push((r, mm));
        }
        S::GateNot(g) => {
            let a = s.gates[g].0;
            let r = s.c.not(&a)?;
            let mm = s.gates[g].1.iter().map(|a| 1 - a).collect();
            s.gates.push((r, mm));
        }
        S::BitOf(x, k) => {
            let g = s.ints[x].0.val_le[k];
            let mm = s.ints[x].1.iter().map(|a| a >> k & 1).collect();
            s.gates.push((g, mm));
        }
        S::Fp2(o, x, y) => {
            let (a, b) = (&s.fps[x].0, &s.fps[y].0);
            let r = if o == 0 { a + b } else { a - b };
            let mm = zip(&s.fps[x].1, &s.fps[y].1, |a, b| if o == 0 { (a + b) % p } else { (8 * p + a - b) % p });
            s.fps.push((r, mm));
        }
        S::FpNeg(x) => {
            let r = -&s.fps[x].0;
            let mm = s.fps[x].1.iter().map(|a| (8 * p - a) % p).collect();
            s.fps.push((r, mm));
        }
        S::FpAssign(o, x, y) => {
            let b = s.fps[y].0.clone();
            let mm = zip(&s.fps[x].1, &s.fps[y].1, |a, b| if o == 0 { (a + b) % p } else { (8 * p + a - b) % p });
            if o == 0 {
                s.fps[x].0 += &b;
            } else {
                s.fps[x].0 -= &b;
            }
            s.fps[x].1 = mm;
        }
        S::FpCmp(o, x, y) => {
            let (a, b) = (&s.fps[x].0, &s.fps[y].0);
            let r = if o == 0 { a.eq(b)? } else { a.neq(b)? };
            let mm = zip(&s.fps[x].1, &s.fps[y].1, |a, b| ((a == b) == (o == 0)) as u32);
            s.gates.push((r, mm));
        }
        S::FpConst(v) => {
            let c = s.fc.as_ref().unwrap();
            let r = match v {
                0 => Fp::<N>::zero(c)?,
                1 => Fp::<N>::one(c)?,
                _ => Fp::<N>::from_biguint_unchecked(&BigUint::from(v), c),
            };
            s.fps.push((r, vec![v; s.total]));
        }
        S::NewInt => {
            let r = Int::<N>::new(cfg.as_ref().unwrap())?;
            let at = s.n_in;
            s.n_in += N;
            // all values so far do not depend on the new inputs
            let rep = 1usize << N;
            let grow = |m: &mut M| {
                let old = m.clone();
                *m = (0..rep).flat_map(|_| old.iter().copied()).collect();
            };
            s.ints.iter_mut().for_each(|x| grow(&mut x.1));
            s.vecs.iter_mut().for_each(|x| grow(&mut x.1));
            s.gates.iter_mut().for_each(|x| grow(&mut x.1));
            s.fps.iter_mut().for_each(|x| grow(&mut x.1));
            s.total <<= N;
            let mm = (0..s.total).map(|i| (i >> at) as u32 & m).collect();
            s.ints.push((r, mm));
        }
    }
    Ok(())
}

/// Ids of the wires of all values, to see that an operation leaves other values alone.
fn wires<const N: usize>(s: &St<N>, skip_int: Option<usize>, skip_vec: Option<usize>, skip_fp: Option<usize>) -> Vec<Vec<u64>> {
    let mut v = vec![];
    for (i, x) in s.ints.iter().enumerate() {
        if Some(i) != skip_int {
            v.push(x.0.val_le.iter().map(|g| g.0).collect());
        }
    }
    for (i, x) in s.vecs.iter().enumerate() {
        if Some(i) != skip_vec {
            v.push(x.0.bits.iter().map(|g| g.0).collect());
        }
    }
    for (i, x) in s.fps.iter().enumerate() {
        if Some(i) != skip_fp {
            v.push(x.0.to_gate_ids().iter().map(|g| g.0).collect());
        }
    }
    v
}

fn program<const N: usize>(ch: &mut Ch, a: &Alphabet, depth: usize) -> R {
    let c = new_circ();
    let mut s = imp("the configurations", || -> Result<St<N>, E> {
        let mut s = St::<N> { c: c.clone(), ic: vec![], bc: None, fc: None, ints: vec![], vecs: vec![], gates: vec![], fps: vec![], n_in: 0, total: 1 };
        let mut bits: Vec<(usize, usize)> = vec![];
        if a.ints > 0 || a.fps > 0 {
            s.ic.push(IntCfg::<N>::new(&c)?);
            if a.two_configs {
                s.ic.push(IntCfg::<N>::new(&c)?);
            }
        }
        if a.vecs > 0 {
            s.bc = Some(BitsCfg::<N>::new(&c)?);
        }
        if a.fps > 0 {
            s.fc = Some(FpCfg::<N>::new(&c, &s.ic[0], BigUint::from(a.p), N / 2)?);
        }
        let mut at = 0;
        let mut field = |bits: &mut Vec<(usize, usize)>, w: usize| {
            bits.push((at, w));
            at += w;
        };
        for _ in 0..a.ints {
            let k = s.ints.len() % s.ic.len();
            s.ints.push((Int::<N>::new(&s.ic[k])?, vec![]));
            field(&mut bits, N);
        }
        for _ in 0..a.vecs {
            s.vecs.push((Bits::<N>::new(s.bc.as_ref().unwrap())?, vec![]));
            field(&mut bits, N);
        }
        for _ in 0..a.fps {
            s.fps.push((Fp::<N>::new(s.fc.as_ref().unwrap())?, vec![]));
            field(&mut bits, N);
        }
        for _ in 0..a.gates {
            s.gates.push((s.c.input()?, vec![]));
            field(&mut bits, 1);
        }
        s.n_in = bits.iter().map(|b| b.1).sum();
        s.total = 1 << s.n_in;
        let total = s.total;
        let mut it = bits.iter();
        let mut all = |m: &mut M| {
            let (at, w) = it.next().unwrap();
            *m = (0..total).map(|i| (i >> at) as u32 & ((1 << w) - 1)).collect();
        };
        s.ints.iter_mut().for_each(|x| all(&mut x.1));
        s.vecs.iter_mut().for_each(|x| all(&mut x.1));
        s.fps.iter_mut().for_each(|x| all(&mut x.1));
        s.gates.iter_mut().for_each(|x| all(&mut x.1));
        Ok(s)
    })?
    .map_err(|e| format!("a configuration: {}", e))?;
    let admissible_fp: Vec<M> = s.fps.iter().map(|x| x.1.clone()).collect();
    let mut text: Vec<S> = vec![];
    for t in 0..depth {
        let list = statements(a, &s);
        let st = ch.pick(&list);
        text.push(st);
        let (si, sv, sf) = match st {
            S::IntAssign(_, x, _) => (Some(x), None, None),
            S::VecAssign(_, x, _) => (None, Some(x), None),
            S::FpAssign(_, x, _) => (None, None, Some(x)),
            _ => (None, None, None),
        };
        let before = wires(&s, si, sv, sf);
        let inputs = (s.c.input_len(), s.c.output_len(), s.n_in);
        imp(&format!("{:?}", text), || step(&mut s, st, t, a.p.max(1)))?.map_err(|e| format!("width {}, {:?}: {}", N, text, e))?;
        let after = wires(&s, si, sv, sf);
        if after[..before.len().min(after.len())] != before[..] {
            // values are only appended, but not at the end of the list of all kinds
            let mut a2 = after.clone();
            for b in &before {
                match a2.iter().position(|x| x == b) {
                    Some(i) => {
                        a2.remove(i);
                    }
                    None => return Err(format!("width {}: the last of {:?} changes the bits of another value", N, text)),
                }
            }
        }
        let grown = s.n_in - inputs.2;
        if s.c.input_len() != inputs.0 + grown as u64 as usize || s.c.output_len() != inputs.1 {
            return Err(format!("width {}: the last of {:?} changes the circuit's inputs or outputs", N, text));
        }
    }
    // everything is output
    let mut want: Vec<Vec<u64>> = vec![];
    let lanes = |m: &M, k: usize| -> Vec<u64> { m.chunks(64).map(|c| c.iter().enumerate().fold(0u64, |s, (i, x)| s | ((x >> k & 1) as u64) << i)).collect() };
    imp("output", || -> Result<(), E> {
        for (x, m) in &s.ints {
            x.output()?;
            want.extend((0..N).map(|k| lanes(m, k)));
        }
        for (x, m) in &s.vecs {
            x.output()?;
            want.extend((0..N).map(|k| lanes(m, k)));
        }
        for (x, m) in &s.fps {
            x.output()?;
            want.extend((0..N).map(|k| lanes(m, k)));
        }
        for (g, m) in &s.gates {
            c.clone().output(*g)?;
            want.push(lanes(m, 0));
        }
        Ok(())
    })?
    .map_err(|e| format!("width {}, {:?}: output: {}", N, text, e))?;
    // canonical elements only
    let extra = s.total / admissible_fp.first().map(|m| m.len()).unwrap_or(s.total);
    let ok: Vec<bool> = (0..s.total)
        .map(|i| {
            let j = i % (s.total / extra);
            admissible_fp.iter().all(|m| m[j] < a.p)
        })
        .collect();
    let mut net = Net::extract(&c)?;
    if net.n_in != s.n_in || net.outs.len() != want.len() {
        return Err(format!("width {}, {:?}: {} inputs and {} outputs, expected {} and {}", N, text, net.n_in, net.outs.len(), s.n_in, want.len()));
    }
    net.n_in = s.n_in;
    let mut v: Vec<[u64; 4]> = vec![];
    let words = (s.total + 63) / 64;
    let mut bad: Option<usize> = None;
    let pat = crate::model::lanes(6);
    'all: for w0 in (0..words).step_by(4) {
        let ins: Vec<[u64; 4]> = (0..s.n_in)
            .map(|i| {
                let mut r = [0u64; 4];
                for (j, r) in r.iter_mut().enumerate() {
                    *r = if i < 6 { pat[i] } else if (w0 + j) >> (i - 6) & 1 == 1 { !0 } else { 0 };
                }
                r
            })
            .collect();
        net.sim(&ins, &mut v);
        for j in 0..4.min(words - w0) {
            let mut mask = 0u64;
            for l in 0..64.min(s.total - 64 * (w0 + j)) {
                mask |= (ok[64 * (w0 + j) + l] as u64) << l;
            }
            for (o, wv) in net.outs.iter().zip(&want) {
                let d = (v[*o as usize][j] ^ wv[w0 + j]) & mask;
                if d != 0 {
                    bad = Some(64 * (w0 + j) + d.trailing_zeros() as usize);
                    break 'all;
                }
            }
        }
    }
    // the evaluator: on the failing assignment, or on two others
    let picks: Vec<usize> = match bad {
        Some(i) => vec![i],
        None => {
            let adm: Vec<usize> = (0..s.total).filter(|i| ok[*i]).collect();
            vec![adm[adm.len() - 1], adm[adm.len() / 3]]
        }
    };
    for i in picks {
        let ins = bits(i as u64, s.n_in);
        let got = eval_real(&c, &ins).map_err(|e| format!("width {}, {:?} on {}: {}", N, text, show_bits(&ins), e))?;
        ch.evals(1);
        let w: Vec<bool> = want.iter().map(|w| w[i / 64] >> (i % 64) & 1 == 1).collect();
        if got != w {
            return Err(format!("width {}, p={}, program {:?} on {}: outputs {} (all values in order), expected {}", N, a.p, text, show_bits(&ins), show_bits(&got), show_bits(&w)));
        }
        if bad.is_some() {
            std::panic::panic_any(EngineError(format!("netlist and evaluator differ: {:?} on {}", text, show_bits(&ins))));
        }
    }
    let mut key: Vec<&Vec<u64>> = want.iter().collect();
    key.sort();
    ch.state(&(N, a.p, &key));
    ch.add_states(0);
    ch.outcome(&want.last().map(|w| w[0]));
    ch.say(|| format!("width {}, {:?}: {} assignments", N, text, s.total));
    Ok(())
}

/// Values of one width used at another width.
fn widths<const N: usize, const K: usize>(ch: &mut Ch) -> R {
    let c = new_circ();
    let n = N.min(K);
    let (o1, o2) = (ch.choose(3) as u8, ch.choose(3) as u8);
    let order = ch.choose(2);
    let what = format!("widths {} and {}, operations {} and {}", N, K, o1, o2);
    imp(&what, || -> Result<(), E> {
        let (ca, cb);
        if order == 0 {
            ca = IntCfg::<N>::new(&c)?;
            cb = IntCfg::<K>::new(&c)?;
        } else {
            cb = IntCfg::<K>::new(&c)?;
            ca = IntCfg::<N>::new(&c)?;
        }
        let a = Int::<N>::new(&ca)?;
        let b = Int::<K>::new(&cb)?;
        let f = |o: u8, x: &Int<N>, y: &Int<N>| match o {
            0 => x + y,
            1 => x - y,
            _ => x * y,
        };
        let g = |o: u8, x: &Int<K>, y: &Int<K>| match o {
            0 => x + y,
            1 => x - y,
            _ => x * y,
        };
        // a o1 a at N, its low bits in K, o2 b
        let x = f(o1, &a, &a);
        let y = Int::<K>::from_gate_ids(x.val_le[..n].to_vec(), &cb)?;
        let z = g(o2, &y, &b);
        let w = Int::<N>::from_gate_ids(z.val_le[..n].to_vec(), &ca)?;
        let w = f(o2, &w, &a);
        x.output()?;
        z.output()?;
        w.output()?;
        let mut r = c.clone();
        r.output(y.less(&z)?)?;
        Ok(())
    })?
    .map_err(|e| format!("{}: {}", what, e))?;
    let net = Net::extract(&c)?;
    let (mn, low) = ((1u32 << N) - 1, (1u32 << n) - 1);
    let _ = mn;
    for i in 0..1u32 << (N + K) {
        let (a, b) = (i & ((1 << N) - 1), i >> N);
        let x = arith(o1, N, a, a);
        let y = x & low;
        let z = arith(o2, K, y, b);
        let w = arith(o2, N, z & low, a);
        let want: Vec<bool> = [bits(x as u64, N), bits(z as u64, K), bits(w as u64, N), bits(cmp(2, K, y, z) as u64, 1)].concat();
        let ins = bits(i as u64, N + K);
        let got = if i % 7 == 0 { eval_real(&c, &ins).map_err(|e| format!("{}: {}", what, e))? } else { net.run(&[ins.clone()])[0].clone() };
        ch.evals((i % 7 == 0) as u64);
        if got != want {
            return Err(format!("{} on {}: {}, expected {}", what, show_bits(&ins), show_bits(&got), show_bits(&want)));
        }
        ch.add_states(1);
    }
    ch.say(|| what.clone());
    Ok(())
}

/// Configurations made at any point between operations, shared by main circuit, field configurations and sub-circuits.
fn configs(ch: &mut Ch, depth: usize) -> R {
    const N: usize = 5;
    let c = new_circ();
    let m = (1u32 << N) - 1;
    let mut text: Vec<String> = vec![];
    // (oracle, width, modulus below which both inputs must be)
    let mut want: Vec<(Box<dyn Fn(u32, u32) -> u32>, usize, u32)> = vec![];
    let mut r = c.clone();
    let mut ins = vec![];
    for _ in 0..2 * N {
        ins.push(imp("input", || r.input())?.map_err(|e| e.to_string())?);
    }
    let (gx, gy) = (ins[..N].to_vec(), ins[N..].to_vec());
    let mut ics: Vec<IntCfg<N>> = vec![imp("a configuration", || IntCfg::<N>::new(&c))?.map_err(|e| e.to_string())?];
    let mut fcs: Vec<(FpCfg<N>, u32)> = vec![];
    let mut bc: Option<BitsCfg<N>> = None;
    let mut cur = 0;
    for _ in 0..depth {
        let nf = fcs.len();
        let k = ch.choose(if nf == 0 { 10 } else { 13 + (nf > 1) as usize });
        let ic = ics[cur].clone();
        let mut group: Option<(Box<dyn Fn(u32, u32) -> u32>, usize, u32)> = None;
        imp(&format!("{:?} then operation {}", text, k), || -> Result<(), E> {
            let x = || Int::<N>::from_gate_ids(gx.clone(), &ic);
            let y = || Int::<N>::from_gate_ids(gy.clone(), &ic);
            match k {
                0 => {
                    ics.push(IntCfg::<N>::new(&c)?);
                    cur = ics.len() - 1;
                    text.push("new integer configuration".into());
                }
                1 | 2 => {
                    let p = if k == 1 { 3 } else { 7 };
                    fcs.push((FpCfg::<N>::new(&c, &ic, BigUint::from(p), 3)?, p));
                    text.push(format!("field configuration modulo {}", p));
                }
                3 => {
                    (&x()? + &y()?).output()?;
                    group = Some((Box::new(move |a, b| (a + b) & m), N, 0));
                    text.push("x+y".into());
                }
                4 => {
                    (&y()? - &x()?).output()?;
                    group = Some((Box::new(move |a, b| b.wrapping_sub(a) & m), N, 0));
                    text.push("y-x".into());
                }
                5 => {
                    (&x()? * &y()?).output()?;
                    group = Some((Box::new(move |a, b| (a * b) & m), N, 0));
                    text.push("x*y".into());
                }
                6 => {
                    r.output(x()?.less(&y()?)?)?;
                    group = Some((Box::new(move |a, b| cmp(2, N, a, b)), 1, 0));
                    text.push("x<y".into());
                }
                7 => {
                    if bc.is_none() {
                        bc = Some(BitsCfg::<N>::new(&c)?);
                    }
                    let b = bc.as_ref().unwrap();
                    (&Bits::<N>::from_gate_ids(gx.clone(), b)? ^ &Bits::<N>::from_gate_ids(gy.clone(), b)?).output()?;
                    group = Some((Box::new(move |a, b| a ^ b), N, 0));
                    text.push("x^y".into());
                }
                8 => {
                    // the configuration used in a sub-circuit, the way field configurations use it
                    let (mid, sub) = r.sub_circuit();
                    let mut sc = ic.clone();
                    sc.c_ref = sub.clone();
                    let a = Int::<N>::new(&sc)?;
                    let b = Int::<N>::new(&sc)?;
                    (&(&a + &b) - &Int::<N>::one(&sc)?).output()?;
                    for g in r.module(&mid, &[&gy[..], &gx[..]].concat())? {
                        r.output(g)?;
                    }
                    group = Some((Box::new(move |a, b| (a + b).wrapping_sub(1) & m), N, 0));
                    text.push("sub-circuit y+x-1".into());
                }
                9 => {
                    cur = 0;
                    text.push("back to the first integer configuration".into());
                }
                _ => {
                    let (fc, p) = if k == 13 { &fcs[0] } else { &fcs[nf - 1] };
                    let p = *p;
                    let x = Fp::<N>::from_gate_ids_unchecked(gx.clone(), fc);
                    let y = Fp::<N>::from_gate_ids_unchecked(gy.clone(), fc);
                    match k {
                        10 | 13 => {
                            (&x + &y).output()?;
                            group = Some((Box::new(move |a, b| (a + b) % p), N, p));
                            text.push(format!("x+y mod {}", p));
                        }
                        11 => {
                            (&x - &y).output()?;
                            group = Some((Box::new(move |a, b| (p + a - b) % p), N, p));
                            text.push(format!("x-y mod {}", p));
                        }
                        _ => {
                            (-&y).output()?;
                            group = Some((Box::new(move |_, b| (p - b) % p), N, p));
                            text.push(format!("-y mod {}", p));
                        }
                    }
                }
            }
            Ok(())
        })?
        .map_err(|e| format!("{:?}, operation {}: {}", text, k, e))?;
        want.extend(group);
    }
    let net = Net::extract(&c)?;
    let total: usize = want.iter().map(|w| w.1).sum();
    if net.outs.len() != total {
        return Err(format!("{:?}: {} outputs, expected {}", text, net.outs.len(), total));
    }
    let pat = crate::model::lanes(6);
    let mut v: Vec<[u64; 16]> = vec![];
    let iv: Vec<[u64; 16]> = (0..2 * N).map(|i| std::array::from_fn(|j| if i < 6 { pat[i] } else if j >> (i - 6) & 1 == 1 { !0 } else { 0 })).collect();
    net.sim(&iv, &mut v);
    let mut check: Vec<usize> = vec![];
    for i in 0..1usize << (2 * N) {
        let (a, b) = (i as u32 & m, i as u32 >> N);
        let mut at = 0;
        for (f, w, p) in &want {
            if *p == 0 || (a < *p && b < *p) {
                let got = (0..*w).fold(0u32, |s, k| s | ((v[net.outs[at + k] as usize][i / 64] >> (i % 64) & 1) as u32) << k);
                if got != f(a, b) {
                    check = vec![i];
                }
            }
            at += w;
        }
        if !check.is_empty() {
            break;
        }
    }
    let failed = !check.is_empty();
    if !failed {
        check = vec![0x27, 0x42];
    }
    for i in check {
        let (a, b) = (i as u32 & m, i as u32 >> N);
        let got = eval_real(&c, &bits(i as u64, 2 * N)).map_err(|e| format!("{:?}: {}", text, e))?;
        ch.evals(1);
        let mut at = 0;
        for (n, (f, w, p)) in want.iter().enumerate() {
            let g = got.get(at..at + w).ok_or("too few outputs")?;
            if (*p == 0 || (a < *p && b < *p)) && g != &bits(f(a, b) as u64, *w)[..] {
                return Err(format!("x={}, y={}: result {} of {:?} is {}, expected {}", a, b, n, text, show_bits(g), show_bits(&bits(f(a, b) as u64, *w))));
            }
            at += w;
        }
        if failed {
            std::panic::panic_any(EngineError(format!("netlist and evaluator differ: {:?} on {} {}", text, a, b)));
        }
    }
    ch.state(&text);
    ch.outcome(&total);
    ch.say(|| format!("{:?}: 1024 assignments", text));
    Ok(())
}

pub fn c24(th: bool) -> Vec<Suite> {
    let z = Alphabet { ints: 0, vecs: 0, gates: 0, fps: 0, full: false, two_configs: false, conversions: false, p: 0 };
    let mk = |name: &str, about: &str, a: Alphabet, ns: Vec<(usize, usize)>| {
        suite(name, about, move |ch| {
            let (n, d) = ch.pick(&ns);
            match n {
                1 => program::<1>(ch, &a, d),
                2 => program::<2>(ch, &a, d),
                3 => program::<3>(ch, &a, d),
                4 => program::<4>(ch, &a, d),
                5 => program::<5>(ch, &a, d),
                6 => program::<6>(ch, &a, d),
                _ => panic!(),
            }
        })
    };
    vec![
        mk("integers", "two integers, every program of 2 statements at widths 1 to 3 (3 at widths 1 and 2, 2 at 3 and 4): operators, assignments in place and on a copy, negation, shifts by 0 to N+1, every constant, all comparisons, comparison bits as integers, inputs declared late, each value usable in any position", Alphabet { ints: 2, full: true, ..z }, if th { vec![(2, 3), (1, 3), (3, 2), (4, 2)] } else { vec![(3, 2), (2, 2), (1, 2)] }),
        mk("longer integer programs", "two integers, every program of 3 statements at widths 1 and 2 (and 3) with fewer constants, shifts and comparisons", Alphabet { ints: 2, ..z }, if th { vec![(2, 3), (1, 3), (3, 3)] } else { vec![(2, 3), (1, 3)] }),
        mk("two configurations", "the same with two integer configurations in one circuit, used in turns on each other's values; 2 statements (3) at width 2, 2 at width 3", Alphabet { ints: 2, two_configs: true, ..z }, if th { vec![(2, 3), (3, 2)] } else { vec![(2, 2), (3, 2)] }),
        mk("bit vectors", "two bit vectors and one bit, every program of 3 statements at width 1 and 2 (and of 2 at width 3): operators, assignments, NOT, equality, multiplexers with any computed bit, vectors made of two bits, gates on bits", Alphabet { vecs: 2, gates: 1, full: th, ..z }, if th { vec![(2, 3), (1, 3), (3, 2)] } else { vec![(2, 3), (1, 2), (3, 2)] }),
        mk("mixed", "one integer, one bit vector and one bit, conversions between them, every program of 3 statements at width 2 and of 2 (3) at width 3", Alphabet { ints: 1, vecs: 1, gates: 1, conversions: true, ..z }, if th { vec![(2, 3), (3, 3)] } else { vec![(2, 3), (3, 2)] }),
        mk("field sums", "two elements modulo 3 (N=4), every program of 3 (4) statements: addition, subtraction, negation, assignments, equality, 0, 1 and p-1", Alphabet { fps: 2, p: 3, ..z }, vec![(4, if th { 4 } else { 3 })]),
        mk("field sums modulo 11", "the same modulo 11 (N=6), 2 statements", Alphabet { fps: 2, p: 11, ..z }, vec![(6, 2)]),
        suite("configurations", "every sequence of 4 (6) steps in one circuit: new integer configurations, field configurations modulo 3 and 7 made from the current one, integer, bit-vector and field operations on the same two inputs under the current, the last or the first configuration, and the configuration used in a sub-circuit that is then called; all assignments of two 5-bit inputs", move |ch| configs(ch, if th { 6 } else { 4 })),
        suite("scopes", "integer, bit-vector and field configurations shared by the main circuit and one or two sub-circuits (redirected as the library does), every sequence of 2 (3) of 24 (36) operations in any scope, inputs declared before or after the configurations, sub-circuits called with both orders of arguments; all 256 assignments", move |ch| {
            let (subs, d) = ch.pick(if th { &[(1usize, 3usize), (2, 2)] } else { &[(1, 2), (2, 2)] });
            super::scopes::scopes(ch, subs, d, if th { super::scopes::ALL } else { super::scopes::MIXED })
        }),
        suite("widths", "integers of two different widths from 1 to 4 in one circuit, in both orders of configuration, values passed from one to the other and back, all values", |ch| {
            match ch.choose(9) {
                0 => widths::<1, 2>(ch),
                1 => widths::<2, 1>(ch),
                2 => widths::<2, 3>(ch),
                3 => widths::<3, 2>(ch),
                4 => widths::<1, 4>(ch),
                5 => widths::<4, 2>(ch),
                6 => widths::<3, 4>(ch),
                7 => widths::<4, 3>(ch),
                _ => widths::<3, 3>(ch),
            }
        }),
    ]
}
