//! Checks of one combinational operation: the circuit built by the implementation, read off as a
//! netlist, against an oracle on all, symbolically all (BDD) or a bounded family of inputs; and the
//! implementation's own evaluator on chosen inputs.

use crate::bdd::{Bdd, Cap};
use crate::explore::*;
use crate::model::*;
use crate::netlist::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

type Small = Arc<dyn Fn(&[u64]) -> Option<u128> + Send + Sync>;
type Big = Arc<dyn Fn(&[BigUint]) -> Option<BigUint> + Send + Sync>;
/// expected outputs and the condition under which they are expected
type Sym = Arc<dyn Fn(&mut Bdd, &[Vec<u32>]) -> Result<(Vec<u32>, u32), Cap> + Send + Sync>;

#[derive(Clone)]
pub struct Op {
    pub name: String,
    pub build: Arc<dyn Fn() -> Result<Circ, String> + Send + Sync>,
    /// widths of the operands, in input order, each least significant bit first
    pub ws: Vec<usize>,
    pub n_out: usize,
    /// None: operands outside the property
    pub small: Option<Small>,
    pub big: Option<Big>,
    pub sym: Option<Sym>,
    /// key of a listed finding and the (got, wanted) it covers
    pub known: Option<(&'static str, fn(&BigUint, &BigUint) -> bool)>,
}

impl Op {
    pub fn n_in(&self) -> usize {
        self.ws.iter().sum()
    }
    fn want(&self, ops: &[BigUint]) -> Option<BigUint> {
        match (&self.big, &self.small) {
            (Some(b), _) => b(ops),
            (None, Some(s)) => s(&ops.iter().map(low64).collect::<Vec<_>>()).map(BigUint::from),
            _ => panic!("{} has no oracle", self.name),
        }
    }
    fn small(&self, ops: &[u64]) -> Option<u128> {
        match &self.small {
            Some(s) => s(ops),
            None => self.want(&ops.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>()).map(|x| {
                let d = x.to_u64_digits();
                d.first().copied().unwrap_or(0) as u128 | (d.get(1).copied().unwrap_or(0) as u128) << 64
            }),
        }
    }
}

pub fn low64(x: &BigUint) -> u64 {
    x.to_u64_digits().first().copied().unwrap_or(0)
}

pub fn big_bits(x: &BigUint, n: usize) -> Vec<bool> {
    (0..n).map(|i| x.bit(i as u64)).collect()
}

pub fn bits_big(b: &[bool]) -> BigUint {
    let mut d = vec![0u32; b.len() / 32 + 1];
    for (i, x) in b.iter().enumerate() {
        if *x {
            d[i / 32] |= 1 << (i % 32);
        }
    }
    BigUint::new(d)
}

/// Bit k of word i becomes bit i of word k.
pub fn transpose(a: &mut [u64; 64]) {
    let mut j = 32;
    let mut m: u64 = 0x0000_0000_FFFF_FFFF;
    while j != 0 {
        let mut k = 0;
        while k < 64 {
            let t = ((a[k] >> j) ^ a[k | j]) & m;
            a[k] ^= t << j;
            a[k | j] ^= t;
            k = ((k | j) + 1) & !j;
        }
        j >>= 1;
        m ^= m << j;
    }
}

static NETS: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Result<Arc<Net>, String>>>>>> = OnceLock::new();

pub fn net_of(op: &Op) -> Result<Arc<Net>, String> {
    let cell = NETS.get_or_init(Default::default).lock().unwrap().entry(op.name.clone()).or_default().clone();
    let r = cell.get_or_init(|| {
        let c = (op.build)()?;
        let (ni, no) = imp("a size", || (c.input_len(), c.output_len()))?;
        if ni != op.n_in() || no != op.n_out {
            return Err(format!("{} has {} inputs and {} outputs, expected {} and {}", op.name, ni, no, op.n_in(), op.n_out));
        }
        Ok(Arc::new(Net::extract(&c)?))
    });
    r.clone()
}

fn show(op: &Op, ops: &[BigUint]) -> String {
    let s: Vec<String> = ops.iter().zip(&op.ws).map(|(x, w)| if *w > 40 { format!("{:#x}", x) } else { x.to_string() }).collect();
    s.join(", ")
}

fn bits_in(op: &Op, ops: &[BigUint]) -> Vec<bool> {
    ops.iter().zip(&op.ws).flat_map(|(x, w)| big_bits(x, *w)).collect()
}

pub fn split(op: &Op, b: &[bool]) -> Vec<BigUint> {
    let mut at = 0;
    op.ws
        .iter()
        .map(|w| {
            at += w;
            bits_big(&b[at - w..at])
        })
        .collect()
}

fn message(op: &Op, ops: &[BigUint], got: &BigUint, want: &BigUint) -> String {
    format!("{} of ({}) is {:#x}, expected {:#x}", op.name, show(op, ops), got, want)
}

/// A mismatch of the netlist counts only if the implementation's evaluator shows it.
fn confirm(ch: &mut Ch, op: &Op, ops: &[BigUint], net_got: &BigUint) -> R {
    let want = op.want(ops).expect("admissible operands");
    let c = (op.build)()?;
    let got = bits_big(&eval_real(&c, &bits_in(op, ops)).map_err(|e| format!("{} of ({}): {}", op.name, show(op, ops), e))?);
    ch.evals(1);
    if got != want {
        return judge(ch, op, ops, &got, &want);
    }
    if got != *net_got {
        std::panic::panic_any(EngineError(format!("the netlist of {} gives {:#x} on ({}), the evaluator {:#x}", op.name, net_got, show(op, ops), got)));
    }
    std::panic::panic_any(EngineError(format!("two oracles of {} differ on ({})", op.name, show(op, ops))))
}

fn judge(ch: &mut Ch, op: &Op, ops: &[BigUint], got: &BigUint, want: &BigUint) -> R {
    let m = message(op, ops, got, want);
    match op.known {
        Some((key, f)) if f(got, want) => ch.known(key, m),
        _ => Err(m),
    }
}

/// number of chunks the inputs of an operation are split into
pub fn chunks(op: &Op) -> usize {
    1 << op.n_in().saturating_sub(CHUNK)
}
const CHUNK: usize = 16;

/// All assignments of chunk `k`, through the netlist.
pub fn exhaustive(ch: &mut Ch, op: &Op, k: usize) -> R {
    let net = net_of(op)?;
    let t = op.n_in();
    assert!(t <= 40 && op.n_out <= 128);
    let total = 1u64 << t.min(CHUNK);
    let base = (k as u64) << CHUNK.min(t);
    let mut v = vec![];
    const W: usize = 4;
    let mut fields = vec![0u64; op.ws.len()];
    let mut known_once = false;
    let mut at = 0u64;
    let pat = lanes(6);
    while at < total {
        let x0 = base + at;
        let ins: Vec<[u64; W]> = (0..t)
            .map(|i| {
                let mut r = [0u64; W];
                for (j, r) in r.iter_mut().enumerate() {
                    let x = x0 + 64 * j as u64;
                    *r = if i < 6 {
                        pat[i]
                    } else if x >> i & 1 == 1 {
                        !0
                    } else {
                        0
                    };
                }
                r
            })
            .collect();
        net.sim(&ins, &mut v);
        for j in 0..W {
            let x1 = x0 + 64 * j as u64;
            if x1 >= base + total {
                break;
            }
            let n = 64.min(base + total - x1);
            let mut lo = [0u64; 64];
            let mut hi = [0u64; 64];
            let mut mask = 0u64;
            for l in 0..n {
                let x = x1 + l;
                let mut sh = 0;
                for (f, w) in fields.iter_mut().zip(&op.ws) {
                    *f = x >> sh & ((1u64 << w) - 1);
                    sh += w;
                }
                if let Some(y) = op.small(&fields) {
                    mask |= 1 << l;
                    lo[l as usize] = y as u64;
                    hi[l as usize] = (y >> 64) as u64;
                }
            }
            transpose(&mut lo);
            if op.n_out > 64 {
                transpose(&mut hi);
            }
            let mut diff = 0u64;
            for (i, o) in op_outs(&net).enumerate() {
                let w = if i < 64 { lo[i] } else { hi[i - 64] };
                diff |= (v[o][j] ^ w) & mask;
            }
            while diff != 0 {
                let l = diff.trailing_zeros();
                diff &= diff - 1;
                let x = x1 + l as u64;
                let ops = split(op, &bits(x, t));
                let got = bits_big(&op_outs(&net).map(|o| v[o][j] >> l & 1 == 1).collect::<Vec<_>>());
                if known_once {
                    if let Some((_, f)) = op.known {
                        if f(&got, &op.want(&ops).unwrap()) {
                            continue;
                        }
                    }
                }
                confirm(ch, op, &ops, &got)?;
                known_once = true;
            }
            ch.add_states(mask.count_ones() as u64);
        }
        at += 64 * W as u64;
    }
    ch.say(|| format!("{}: all {} assignments from {:#x} on", op.name, total, base));
    Ok(())
}

fn op_outs(net: &Net) -> impl Iterator<Item = usize> + '_ {
    net.outs.iter().map(|o| *o as usize)
}

/// The netlist on the given operands.
pub fn batch(ch: &mut Ch, op: &Op, vecs: &[Vec<BigUint>]) -> R {
    let net = net_of(op)?;
    let mut v: Vec<[u64; 1]> = vec![];
    let n_in = op.n_in();
    let mut known_once = false;
    for chunk in vecs.chunks(64) {
        let mut ins: Vec<[u64; 1]> = Vec::with_capacity(n_in);
        for (k, w) in op.ws.iter().enumerate() {
            let digits: Vec<Vec<u64>> = chunk.iter().map(|o| o[k].to_u64_digits()).collect();
            for b in 0..(w + 63) / 64 {
                let mut m = [0u64; 64];
                for (l, d) in digits.iter().enumerate() {
                    m[l] = d.get(b).copied().unwrap_or(0);
                }
                transpose(&mut m);
                ins.extend(m[..64.min(w - 64 * b)].iter().map(|x| [*x]));
            }
        }
        net.sim(&ins, &mut v);
        let mut mask = 0u64;
        let wants: Vec<Vec<u64>> = chunk
            .iter()
            .enumerate()
            .map(|(l, o)| match op.want(o) {
                Some(x) => {
                    mask |= 1 << l;
                    x.to_u64_digits()
                }
                None => vec![],
            })
            .collect();
        let mut diff = 0u64;
        for b in 0..(op.n_out + 63) / 64 {
            let mut m = [0u64; 64];
            for (l, d) in wants.iter().enumerate() {
                m[l] = d.get(b).copied().unwrap_or(0);
            }
            transpose(&mut m);
            for i in 64 * b..op.n_out.min(64 * b + 64) {
                diff |= (v[net.outs[i] as usize][0] ^ m[i - 64 * b]) & mask;
            }
        }
        while diff != 0 {
            let l = diff.trailing_zeros() as usize;
            diff &= diff - 1;
            let got = bits_big(&op_outs(&net).map(|o| v[o][0] >> l & 1 == 1).collect::<Vec<_>>());
            if known_once {
                if let Some((_, f)) = op.known {
                    if f(&got, &op.want(&chunk[l]).unwrap()) {
                        continue;
                    }
                }
            }
            confirm(ch, op, &chunk[l], &got)?;
            known_once = true;
        }
        ch.add_states(mask.count_ones() as u64);
    }
    Ok(())
}

/// The netlist on words of at most 64 bits, with the small oracle.
pub fn batch64<I: Iterator<Item = Vec<u64>>>(ch: &mut Ch, op: &Op, mut it: I) -> R {
    const W: usize = 4;
    let net = net_of(op)?;
    let mut v: Vec<[u64; W]> = vec![];
    let mut known_once = false;
    let mut buf: Vec<Vec<u64>> = Vec::with_capacity(64 * W);
    loop {
        buf.clear();
        buf.extend(it.by_ref().take(64 * W));
        if buf.is_empty() {
            return Ok(());
        }
        let mut ins: Vec<[u64; W]> = vec![[0; W]; op.n_in()];
        let mut lo = [[0u64; 64]; W];
        let mut hi = [[0u64; 64]; W];
        let mut mask = [0u64; W];
        for (j, c) in buf.chunks(64).enumerate() {
            let mut at = 0;
            for (k, w) in op.ws.iter().enumerate() {
                let mut m = [0u64; 64];
                for (l, o) in c.iter().enumerate() {
                    m[l] = o[k];
                }
                transpose(&mut m);
                for i in 0..*w {
                    ins[at + i][j] = m[i];
                }
                at += w;
            }
            for (l, o) in c.iter().enumerate() {
                if let Some(y) = op.small(o) {
                    mask[j] |= 1 << l;
                    lo[j][l] = y as u64;
                    hi[j][l] = (y >> 64) as u64;
                }
            }
            transpose(&mut lo[j]);
            transpose(&mut hi[j]);
        }
        net.sim(&ins, &mut v);
        for j in 0..W {
            let mut diff = 0u64;
            for (i, o) in op_outs(&net).enumerate() {
                let w = if i < 64 { lo[j][i] } else { hi[j][i - 64] };
                diff |= (v[o][j] ^ w) & mask[j];
            }
            while diff != 0 {
                let l = diff.trailing_zeros();
                diff &= diff - 1;
                let ops: Vec<BigUint> = buf[64 * j + l as usize].iter().map(|x| BigUint::from(*x)).collect();
                let got = bits_big(&op_outs(&net).map(|o| v[o][j] >> l & 1 == 1).collect::<Vec<_>>());
                if known_once {
                    if let Some((_, f)) = op.known {
                        if f(&got, &op.want(&ops).unwrap()) {
                            continue;
                        }
                    }
                }
                confirm(ch, op, &ops, &got)?;
                known_once = true;
            }
            ch.add_states(mask[j].count_ones() as u64);
        }
    }
}

/// Drives every gate to each of the value pairs its operands can take: those the given operands reach
/// first, then the others one by one, by the BDD of the condition over the inputs (capped); the outputs are
/// compared with the oracle throughout. This finds functions that differ only where some rare condition
/// computed by a gate holds.
pub fn gate_values(ch: &mut Ch, op: &Op, base: &[Vec<BigUint>], cap: usize, shards: usize) -> R {
    let shard = ch.choose(shards);
    batch(ch, op, base)?;
    let net = net_of(op)?;
    let n = net.g.len();
    let mut seen = vec![0u8; n];
    let mut need = vec![false; n];
    for o in &net.outs {
        need[*o as usize] = true;
    }
    for i in (0..n).rev() {
        if need[i] {
            match net.g[i] {
                G::Not(a) => need[a as usize] = true,
                G::Xor(a, b) | G::And(a, b) | G::Or(a, b) => {
                    need[a as usize] = true;
                    need[b as usize] = true;
                }
                _ => {}
            }
        }
    }
    let mut v: Vec<[u64; 1]> = vec![];
    let note = |seen: &mut Vec<u8>, v: &mut Vec<[u64; 1]>, vecs: &[Vec<bool>]| {
        for c in vecs.chunks(64) {
            let mut ins = vec![[0u64; 1]; net.n_in];
            for (k, a) in c.iter().enumerate() {
                for (i, b) in a.iter().enumerate() {
                    if *b {
                        ins[i][0] |= 1 << k;
                    }
                }
            }
            net.sim(&ins, v);
            let m = if c.len() == 64 { !0u64 } else { (1 << c.len()) - 1 };
            for i in 0..n {
                if !need[i] || seen[i] == 15 {
                    continue;
                }
                match net.g[i] {
                    G::Not(a) => {
                        let a = v[a as usize][0];
                        if a & m != 0 {
                            seen[i] |= 10;
                        }
                        if !a & m != 0 {
                            seen[i] |= 5;
                        }
                    }
                    G::Xor(a, b) | G::And(a, b) | G::Or(a, b) => {
                        let (a, b) = (v[a as usize][0], v[b as usize][0]);
                        for (k, w) in [!a & !b, a & !b, !a & b, a & b].iter().enumerate() {
                            if w & m != 0 {
                                seen[i] |= 1 << k;
                            }
                        }
                    }
                    _ => seen[i] = 15,
                }
            }
        }
    };
    let flat: Vec<Vec<bool>> = base.iter().filter(|o| op.want(o).is_some()).map(|o| bits_in(op, o)).collect();
    note(&mut seen, &mut v, &flat);
    // variable order as in `symbolic`
    let top = *op.ws.iter().max().unwrap_or(&0);
    let k = op.ws.len() as u32;
    let mut order: Vec<u32> = vec![];
    for (j, w) in op.ws.iter().enumerate() {
        order.extend((0..*w).map(|i| (top - 1 - i) as u32 * k + j as u32));
    }
    let mut tries = 0;
    let mut cone: Vec<u32> = vec![u32::MAX; n];
    let (mut never, mut unknown) = (0u64, 0u64);
    let mut fresh: Vec<Vec<BigUint>> = vec![];
    for i in 0..n {
        if !need[i] || seen[i] == 15 || i % shards != shard {
            continue;
        }
        let (a, bb) = match net.g[i] {
            G::Not(a) => (a, a),
            G::Xor(a, b) | G::And(a, b) | G::Or(a, b) => (a, b),
            _ => continue,
        };
        // the cone's BDDs in a manager of their own
        let mut b = Bdd::new(cap);
        let mut stack = vec![a, bb];
        let mut members = vec![];
        while let Some(x) = stack.pop() {
            if cone[x as usize] == i as u32 {
                continue;
            }
            cone[x as usize] = i as u32;
            members.push(x);
            match net.g[x as usize] {
                G::Not(p) => stack.push(p),
                G::Xor(p, q) | G::And(p, q) | G::Or(p, q) => stack.extend([p, q]),
                _ => {}
            }
        }
        members.sort();
        tries += 1;
        let mut m: rustc_hash::FxHashMap<u32, u32> = Default::default();
        let mut build = || -> Result<(u32, u32), Cap> {
            for x in &members {
                let r = match net.g[*x as usize] {
                    G::Const(c) => c as u32,
                    G::In(j) => b.var(order[j as usize])?,
                    G::Not(p) => {
                        let p = m[&p];
                        b.not(p)?
                    }
                    G::Xor(p, q) => b.xor(m[&p], m[&q])?,
                    G::And(p, q) => b.and(m[&p], m[&q])?,
                    G::Or(p, q) => b.or(m[&p], m[&q])?,
                };
                m.insert(*x, r);
            }
            Ok((m[&a], m[&bb]))
        };
        let (x, y) = match build() {
            Ok(p) => p,
            Err(Cap) => {
                unknown += 1;
                continue;
            }
        };
        for c in 0..4u32 {
            if seen[i] >> c & 1 == 1 {
                continue;
            }
            let cond = (|| -> Result<u32, Cap> {
                let x = if c & 1 == 1 { x } else { b.not(x)? };
                let y = if c & 2 == 2 { y } else { b.not(y)? };
                b.and(x, y)
            })();
            match cond {
                Err(Cap) => unknown += 1,
                Ok(0) => never += 1,
                Ok(z) => {
                    let sat = b.sat(z);
                    // free inputs 0, 1 and alternating
                    for fill in 0..4usize {
                        let ins: Vec<bool> = (0..net.n_in).map(|j| sat.iter().find(|(w, _)| *w == order[j]).map(|(_, t)| *t).unwrap_or([false, true, j % 2 == 0, j % 3 == 0][fill])).collect();
                        fresh.push(split(op, &ins));
                        note(&mut seen, &mut v, &[ins]);
                    }
                }
            }
        }
    }
    batch(ch, op, &fresh)?;
    ch.count("gates_needing_a_witness", tries);
    ch.count("operand_pairs_unreachable", never);
    ch.count("gates_beyond_the_bdd_cap", unknown);
    ch.say(|| format!("{}: {} gates, {} operands given, {} computed, {} pairs unreachable, {} gates undecided", op.name, n, base.len(), fresh.len(), never, unknown));
    Ok(())
}

/// All inputs at once: the outputs' BDDs are those of the oracle wherever it says anything.
pub fn symbolic(ch: &mut Ch, op: &Op, cap: usize) -> R {
    let net = net_of(op)?;
    let sym = op.sym.as_ref().expect("symbolic oracle");
    let mut b = Bdd::new(cap);
    // operands interleaved, most significant bits on top
    let top = *op.ws.iter().max().unwrap_or(&0);
    let k = op.ws.len() as u32;
    let mut vars: Vec<Vec<u32>> = vec![];
    let mut run = || -> Result<Option<Vec<(u32, bool)>>, Cap> {
        for (j, w) in op.ws.iter().enumerate() {
            let v = (0..*w).map(|i| b.var((top - 1 - i) as u32 * k + j as u32)).collect::<Result<Vec<_>, _>>()?;
            vars.push(v);
        }
        let flat: Vec<u32> = vars.concat();
        let got = net.bdds(&mut b, &flat)?;
        let (want, pre) = sym(&mut b, &vars)?;
        assert_eq!(want.len(), op.n_out);
        for (g, w) in got.iter().zip(&want) {
            let d = b.xor(*g, *w)?;
            let d = b.and(d, pre)?;
            if d != 0 {
                return Ok(Some(b.sat(d)));
            }
        }
        Ok(None)
    };
    match run() {
        Err(Cap) => {
            // the circuit's inner functions have no small BDDs: fall back to families of operands
            ch.count("bdd_over_cap", 1);
            let lists: Vec<Vec<BigUint>> = op.ws.iter().map(|w| [edges(*w), runs(*w, 1 + w / 12)].concat()).collect();
            let base = crate::props::arith::product(&lists);
            return batch(ch, op, &base);
        }
        Ok(None) => {}
        Ok(Some(a)) => {
            let val = |i: usize, j: usize| a.iter().any(|(v, x)| *x && *v == (top - 1 - i) as u32 * k + j as u32);
            let ops: Vec<BigUint> = op.ws.iter().enumerate().map(|(j, w)| bits_big(&(0..*w).map(|i| val(i, j)).collect::<Vec<_>>())).collect();
            let got = bits_big(&net.run(&[bits_in(op, &ops)])[0]);
            confirm(ch, op, &ops, &got)?;
        }
    }
    ch.count("bdd_nodes", b.size() as u64);
    ch.add_states(b.size() as u64);
    ch.say(|| format!("{}: all 2^{} inputs, {} BDD nodes", op.name, op.n_in(), b.size()));
    Ok(())
}

/// All values of the other operand at once, operand `fixed` being `c`.
pub fn symbolic_fixed(ch: &mut Ch, op: &Op, fixed: usize, c: &BigUint, cap: usize) -> R {
    let net = net_of(op)?;
    let sym = op.sym.as_ref().expect("symbolic oracle");
    let other = 1 - fixed;
    let w = op.ws[other];
    let mut b = Bdd::new(cap);
    let mut run = || -> Result<Option<Vec<(u32, bool)>>, Cap> {
        let x = (0..w).map(|i| b.var((w - 1 - i) as u32)).collect::<Result<Vec<_>, _>>()?;
        let k: Vec<u32> = (0..op.ws[fixed]).map(|i| c.bit(i as u64) as u32).collect();
        let vars = if fixed == 0 { vec![k, x] } else { vec![x, k] };
        let got = net.bdds(&mut b, &vars.concat())?;
        let (want, pre) = sym(&mut b, &vars)?;
        assert_eq!(want.len(), op.n_out);
        for (g, w) in got.iter().zip(&want) {
            let d = b.xor(*g, *w)?;
            let d = b.and(d, pre)?;
            if d != 0 {
                return Ok(Some(b.sat(d)));
            }
        }
        Ok(None)
    };
    let with = |x: BigUint| if fixed == 0 { vec![c.clone(), x] } else { vec![x, c.clone()] };
    match run() {
        Err(Cap) => {
            ch.say(|| format!("over the cap: {} with operand {} = {:#x}", op.name, fixed, c));
            ch.count("bdd_over_cap", 1);
            let l: Vec<Vec<BigUint>> = [edges(w), runs(w, 1)].concat().into_iter().map(with).collect();
            return batch(ch, op, &l);
        }
        Ok(None) => {}
        Ok(Some(a)) => {
            let x = bits_big(&(0..w).map(|i| a.iter().any(|(v, x)| *x && *v == (w - 1 - i) as u32)).collect::<Vec<_>>());
            let ops = with(x);
            let got = bits_big(&net.run(&[bits_in(op, &ops)])[0]);
            confirm(ch, op, &ops, &got)?;
        }
    }
    ch.count("bdd_nodes", b.size() as u64);
    ch.add_states(b.size() as u64);
    ch.say(|| format!("{} with operand {} = {:#x} and all values of the other: {} BDD nodes", op.name, fixed, c, b.size()));
    Ok(())
}

/// The implementation's evaluator (one object for all) on the given operands; the netlist replays them.
pub fn real(ch: &mut Ch, op: &Op, vecs: &[Vec<BigUint>]) -> R {
    let net = net_of(op)?;
    let c = (op.build)()?;
    let mut ev = NXAOBoolEvaluator::new(c);
    for o in vecs {
        let want = match op.want(o) {
            Some(w) => w,
            None => continue,
        };
        let ins = bits_in(op, o);
        let got = eval_with(&mut ev, &ins).map_err(|e| format!("{} of ({}): {}", op.name, show(op, o), e))?;
        ch.evals(1);
        if got.len() != op.n_out {
            return Err(format!("{} has {} output bits, expected {}", op.name, got.len(), op.n_out));
        }
        let g = bits_big(&got);
        ch.outcome(&want);
        if g != want {
            judge(ch, op, o, &g, &want)?;
        } else if net.run(&[ins])[0] != got {
            std::panic::panic_any(EngineError(format!("the netlist of {} and the evaluator differ on ({})", op.name, show(op, o))));
        }
    }
    Ok(())
}

/// All values of all operands (few bits in all).
pub fn all_operands(op: &Op) -> Vec<Vec<BigUint>> {
    (0..1u64 << op.n_in()).map(|x| split(op, &bits(x, op.n_in()))).collect()
}

/// Characteristic values of a width.
pub fn edges(w: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let all = (&one << w) - &one;
    let pat = |f: &dyn Fn(usize) -> bool| bits_big(&(0..w).map(|i| f(i)).collect::<Vec<_>>());
    let mut v = vec![
        BigUint::from(0u32),
        all.clone(),
        one.clone(),
        &one << (w - 1),
        (&one << (w - 1)) - &one,
        pat(&|i| i % 2 == 0),
        pat(&|i| i % 2 == 1),
        pat(&|i| i < w / 2),
        pat(&|i| i >= w / 2),
        pat(&|i| i % 3 == 0),
        pat(&|i| i % 4 < 2),
        pat(&|i| i % 7 == 3 || i % 11 == 5),
        pat(&|i| (i * i + 3 * i) % 13 < 6),
    ];
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// 2^i, 2^i - 1, 2^i + 1 and their negatives, at the given positions.
pub fn runs(w: usize, step: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let m = &one << w;
    let mut v = vec![];
    let mut at: Vec<usize> = (0..w).filter(|i| i % step == 0 || *i + 2 >= w || *i < 2).collect();
    if at.is_empty() {
        at.push(0);
    }
    for i in at {
        let p = &one << i;
        for x in [p.clone(), &p - &one, (&p + &one) % &m] {
            v.push((&m - &x) % &m);
            v.push(x);
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub fn flip(x: &BigUint, i: usize) -> BigUint {
    x ^ (BigUint::from(1u32) << i)
}

/// x itself and x with every single bit flipped, every `step`-th only if step > 1
pub fn flips(x: &BigUint, w: usize, step: usize) -> Vec<BigUint> {
    let mut v = vec![x.clone()];
    v.extend((0..w).filter(|i| i % step == 0 || *i + 1 == w).map(|i| flip(x, i)));
    v
}
