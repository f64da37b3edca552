//! Enumeration of small programs.

use crate::explore::*;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    C0,
    C1,
    Not,
    Xor,
    And,
    Or,
    Eqv,
    Id,
}
pub const FULL: &[K] = &[K::Not, K::Xor, K::And, K::Or, K::C0, K::C1, K::Eqv, K::Id];
pub const NAXC: &[K] = &[K::Not, K::And, K::Xor, K::C1];
pub const NAX: &[K] = &[K::Not, K::And, K::Xor];
pub const NX: &[K] = &[K::Not, K::Xor];

/// One more primitive gate over the signals so far; `ordered`: all ordered operand pairs.
pub fn gen_gate(ch: &mut Ch, p: &mut Prog, ops: &[K], ordered: bool) -> u32 {
    let n = p.sigs.len();
    let usable: Vec<K> = ops.iter().copied().filter(|k| n > 0 || matches!(k, K::C0 | K::C1)).collect();
    if usable.is_empty() {
        return p.push(Sig::Const(true));
    }
    let k = ch.pick(&usable);
    let s = match k {
        K::C0 => Sig::Const(false),
        K::C1 => Sig::Const(true),
        K::Not | K::Id => {
            let a = ch.choose(n) as u32;
            if k == K::Not {
                Sig::Not(a)
            } else {
                Sig::Id(a)
            }
        }
        _ => {
            let a = ch.choose(n) as u32;
            let b = if ordered { ch.choose(n) as u32 } else { a + ch.choose(n - a as usize) as u32 };
            match k {
                K::Xor => Sig::Xor(a, b),
                K::And => Sig::And(a, b),
                K::Or => Sig::Or(a, b),
                _ => Sig::Eqv(a, b),
            }
        }
    };
    let r = p.push(s);
    ch.state(&(1u8, &*p));
    r
}

pub fn gen_prog(ch: &mut Ch, n_in: usize, n_gates: usize, ops: &[K], ordered: bool) -> Prog {
    let mut p = Prog::inputs(n_in);
    for _ in 0..n_gates {
        gen_gate(ch, &mut p, ops, ordered);
    }
    p
}

/// All output lists of at most `max` entries.
pub fn gen_outs(ch: &mut Ch, p: &mut Prog, max: usize) {
    let n = p.sigs.len();
    let len = if n == 0 { 0 } else { ch.choose(max + 1) };
    // the longest first is as good as any; 0 means one output, so that the default run is not trivial
    let len = match (n, len) {
        (0, _) => 0,
        (_, 0) => 1.min(max),
        (_, 1) => 0,
        (_, k) => k,
    };
    for _ in 0..len {
        let o = ch.choose(n);
        p.outs.push((n - 1 - o) as u32);
    }
    ch.state(&(2u8, &*p));
}
