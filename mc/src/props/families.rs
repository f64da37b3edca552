//! Families of circuits with a size parameter.

use crate::model::*;

pub struct Fam {
    pub name: &'static str,
    /// sizes above this are skipped
    pub max: usize,
    pub make: fn(usize) -> (Lib, Prog),
}

fn solo(p: Prog) -> (Lib, Prog) {
    (vec![], p)
}

fn not_chain(n: usize) -> (Lib, Prog) {
    let mut p = Prog::inputs(1);
    let mut s = 0;
    for _ in 0..n {
        s = p.push(Sig::Not(s));
    }
    p.outs = vec![s, 0];
    solo(p)
}
fn mixed_chain(n: usize) -> (Lib, Prog) {
    // s' = op(s, other), operand order alternating
    let mut p = Prog::inputs(3);
    let mut s = 0;
    for i in 0..n {
        let o = 1 + (i as u32 % 2);
        s = p.push(match i % 5 {
            0 => Sig::Xor(s, o),
            1 => Sig::Or(o, s),
            2 => Sig::Not(s),
            3 => Sig::Xor(o, s),
            _ => Sig::And(s, o),
        });
    }
    p.outs = vec![s];
    solo(p)
}
fn ladder(n: usize) -> (Lib, Prog) {
    // every signal is read by the next two
    let mut p = Prog::inputs(2);
    let (mut a, mut b) = (0, 1);
    for i in 0..n {
        let c = p.push(match i % 4 {
            0 => Sig::Xor(a, b),
            1 => Sig::Or(b, a),
            2 => Sig::Eqv(a, b),
            _ => Sig::Xor(b, a),
        });
        a = b;
        b = c;
    }
    p.outs = vec![b, a];
    solo(p)
}
fn square_ladder(n: usize) -> (Lib, Prog) {
    // both operands are the same gate, which is an output as well
    let mut p = Prog::inputs(1);
    let mut s = 0;
    for i in 0..n {
        s = p.push(if i % 2 == 0 { Sig::Or(s, s) } else { Sig::Not(s) });
    }
    p.outs = vec![s, p.len() / 2];
    solo(p)
}
fn star(n: usize) -> (Lib, Prog) {
    // one input read n times, every reader an output
    let mut p = Prog::inputs(2);
    for i in 0..n {
        let s = p.push(match i % 3 {
            0 => Sig::And(0, 1),
            1 => Sig::Xor(1, 0),
            _ => Sig::Or(0, 0),
        });
        p.outs.push(s);
    }
    p.outs.push(0);
    solo(p)
}
fn gate_star(n: usize) -> (Lib, Prog) {
    // one inner gate read n times, folded into one output
    let mut p = Prog::inputs(2);
    let g = p.push(Sig::Xor(0, 1));
    let mut acc = p.push(Sig::And(0, 1));
    for i in 0..n {
        acc = p.push(if i % 2 == 0 { Sig::Xor(acc, g) } else { Sig::Or(g, acc) });
    }
    p.outs = vec![acc, g];
    solo(p)
}
fn wide_reverse(n: usize) -> (Lib, Prog) {
    let mut p = Prog::inputs(n);
    p.outs = (0..n as u32).rev().collect();
    solo(p)
}
fn wide_zip(n: usize) -> (Lib, Prog) {
    // n bits against n bits, most significant first
    let mut p = Prog::inputs(2 * n);
    for i in (0..n as u32).rev() {
        let s = p.push(match i % 4 {
            0 => Sig::Xor(i, n as u32 + i),
            1 => Sig::And(n as u32 + i, i),
            2 => Sig::Or(i, n as u32 + i),
            _ => Sig::Eqv(i, n as u32 + i),
        });
        p.outs.push(s);
    }
    solo(p)
}
fn same_output(n: usize) -> (Lib, Prog) {
    let mut p = Prog::inputs(2);
    let g = p.push(Sig::And(0, 1));
    let h = p.push(Sig::Not(g));
    for i in 0..n {
        p.outs.push(if i % 7 == 3 { h } else { g });
    }
    solo(p)
}
fn tree(n: usize) -> (Lib, Prog) {
    let mut p = Prog::inputs(n);
    let mut lvl: Vec<u32> = (0..n as u32).collect();
    let mut k = 0;
    while lvl.len() > 1 {
        let mut next = vec![];
        for c in lvl.chunks(2) {
            next.push(if c.len() == 2 {
                if k % 2 == 0 {
                    p.push(Sig::Xor(c[0], c[1]))
                } else {
                    p.push(Sig::Eqv(c[1], c[0]))
                }
            } else {
                c[0]
            });
        }
        k += 1;
        lvl = next;
    }
    p.outs = lvl;
    solo(p)
}
fn consts(n: usize) -> (Lib, Prog) {
    // constants before, between and after the gates
    let mut p = Prog::inputs(1);
    let mut acc = 0;
    for i in 0..n {
        let c = p.push(Sig::Const(i % 3 != 1));
        acc = p.push(if i % 2 == 0 { Sig::Xor(acc, c) } else { Sig::Eqv(c, acc) });
        if i % 4 == 0 {
            p.outs.push(c);
        }
    }
    p.outs.push(acc);
    solo(p)
}
fn dead(n: usize) -> (Lib, Prog) {
    // n gates nobody needs, reading the gates that are needed
    let mut p = Prog::inputs(2);
    let g = p.push(Sig::Xor(0, 1));
    let mut d = g;
    for i in 0..n {
        d = p.push(if i % 2 == 0 { Sig::And(d, g) } else { Sig::Not(g) });
    }
    let h = p.push(Sig::Or(g, 0));
    p.outs = vec![h];
    solo(p)
}

// --- with modules
fn m_series(n: usize) -> (Lib, Prog) {
    // m(x, y) = (x ^ y, y), called n times in a row
    let mut m = Prog::inputs(2);
    let x = m.push(Sig::Xor(0, 1));
    m.outs = vec![x, 1];
    let lib = vec![m];
    let mut p = Prog::inputs(2);
    let (mut a, mut b) = (0, 1);
    for i in 0..n {
        let o = p.call(0, &lib, if i % 2 == 0 { vec![a, b] } else { vec![b, a] });
        a = o[0];
        b = o[1];
    }
    p.outs = vec![a, b];
    (lib, p)
}
fn m_parallel(n: usize) -> (Lib, Prog) {
    let mut m = Prog::inputs(2);
    let x = m.push(Sig::And(0, 1));
    let c = m.push(Sig::Const(true));
    let y = m.push(Sig::Xor(x, c));
    m.outs = vec![y, x];
    let lib = vec![m];
    let mut p = Prog::inputs(2);
    for i in 0..n {
        let o = p.call(0, &lib, if i % 3 == 0 { vec![0, 0] } else { vec![1, 0] });
        p.outs.push(o[i % 2]);
    }
    (lib, p)
}
fn m_nested(n: usize) -> (Lib, Prog) {
    // m0(x,y) = (y, x^y); m_{k+1} calls m_k once and twists
    let mut lib: Lib = vec![];
    let mut m = Prog::inputs(2);
    let x = m.push(Sig::Xor(0, 1));
    m.outs = vec![1, x];
    lib.push(m);
    for k in 0..n {
        let mut m = Prog::inputs(2);
        let o = m.call(k, &lib, vec![1, 0]);
        let t = m.push(if k % 2 == 0 { Sig::Not(o[0]) } else { Sig::Xor(o[0], o[1]) });
        m.outs = vec![t, o[1]];
        lib.push(m);
    }
    let mut p = Prog::inputs(2);
    let o = p.call(n, &lib, vec![0, 1]);
    p.outs = o;
    (lib, p)
}
fn m_wide_in(n: usize) -> (Lib, Prog) {
    let (_, mut m) = tree(n);
    if m.outs.is_empty() {
        m.outs = vec![];
    }
    let lib = vec![m];
    let mut p = Prog::inputs(n);
    let mut args: Vec<u32> = (0..n as u32).rev().collect();
    if n > 2 {
        args[1] = args[0];
    }
    let o = p.call(0, &lib, args);
    p.outs = o;
    if n > 0 {
        p.outs.push(0);
    }
    (lib, p)
}
fn m_wide_out(n: usize) -> (Lib, Prog) {
    let mut m = Prog::inputs(2);
    let g = m.push(Sig::Xor(0, 1));
    let h = m.push(Sig::And(0, 1));
    for i in 0..n {
        m.outs.push(match i % 5 {
            0 => 0,
            1 => g,
            2 => h,
            3 => 1,
            _ => g,
        });
    }
    let lib = vec![m];
    let mut p = Prog::inputs(2);
    let o = p.call(0, &lib, vec![1, 0]);
    p.outs = o.iter().rev().copied().collect();
    if n > 0 {
        let z = p.push(Sig::Not(o[n - 1]));
        p.outs.push(z);
    }
    (lib, p)
}
fn m_wide_zip(n: usize) -> (Lib, Prog) {
    let (_, m) = wide_zip(n);
    let lib = vec![m];
    let mut p = Prog::inputs(2 * n);
    // the halves swapped
    let args: Vec<u32> = (n as u32..2 * n as u32).chain(0..n as u32).collect();
    let o = p.call(0, &lib, args);
    p.outs = o;
    (lib, p)
}
fn m_many(n: usize) -> (Lib, Prog) {
    // n different modules, each called once and the last one first
    let mut lib: Lib = vec![];
    for k in 0..n {
        let mut m = Prog::inputs(2);
        let x = m.push(match k % 3 {
            0 => Sig::Xor(0, 1),
            1 => Sig::And(0, 1),
            _ => Sig::Or(1, 0),
        });
        let y = if k % 4 == 1 { m.push(Sig::Not(x)) } else { x };
        m.outs = vec![y];
        lib.push(m);
    }
    let mut p = Prog::inputs(2);
    for k in (0..n).rev() {
        let o = p.call(k, &lib, vec![0, 1]);
        p.outs.push(o[0]);
    }
    (lib, p)
}
fn m_consts(n: usize) -> (Lib, Prog) {
    // modules with constants, called repeatedly, also nested, some results unused
    let mut m = Prog::inputs(1);
    let c = m.push(Sig::Const(true));
    let d = m.push(Sig::Const(false));
    let x = m.push(Sig::Xor(0, c));
    let y = m.push(Sig::Or(x, d));
    m.outs = vec![y, c];
    let mut lib = vec![m];
    let mut q = Prog::inputs(1);
    let o1 = q.call(0, &lib, vec![0]);
    let k = q.push(Sig::Const(true));
    let o2 = q.call(0, &lib, vec![o1[0]]);
    let z = q.push(Sig::And(k, o2[0]));
    q.outs = vec![z, o1[1]];
    lib.push(q);
    let mut p = Prog::inputs(1);
    let mut s = 0;
    for i in 0..n {
        let c = p.push(Sig::Const(i % 2 == 0));
        let o = p.call(1, &lib, vec![s]);
        let dead = p.call(0, &lib, vec![c]);
        let _ = dead;
        s = p.push(Sig::Xor(o[0], o[1]));
        s = p.push(Sig::Xor(s, c));
    }
    p.outs = vec![s];
    (lib, p)
}
fn m_deps(n: usize) -> (Lib, Prog) {
    // n gates and n calls read one gate, interleaved
    let mut m = Prog::inputs(2);
    let x = m.push(Sig::Or(0, 1));
    m.outs = vec![x, 0];
    let lib = vec![m];
    let mut p = Prog::inputs(2);
    let g = p.push(Sig::Xor(0, 1));
    let mut acc = g;
    for i in 0..n {
        let o = p.call(0, &lib, vec![g, acc]);
        acc = p.push(if i % 2 == 0 { Sig::Xor(o[0], g) } else { Sig::And(o[1], o[0]) });
    }
    p.outs = vec![acc, g];
    (lib, p)
}

pub const PLAIN: &[Fam] = &[
    Fam { name: "not_chain", max: 5000, make: not_chain },
    Fam { name: "mixed_chain", max: 5000, make: mixed_chain },
    Fam { name: "ladder", max: 5000, make: ladder },
    Fam { name: "square_ladder", max: 5000, make: square_ladder },
    Fam { name: "star", max: 70000, make: star },
    Fam { name: "gate_star", max: 5000, make: gate_star },
    Fam { name: "wide_reverse", max: 70000, make: wide_reverse },
    Fam { name: "wide_zip", max: 70000, make: wide_zip },
    Fam { name: "same_output", max: 70000, make: same_output },
    Fam { name: "tree", max: 70000, make: tree },
    Fam { name: "consts", max: 5000, make: consts },
    Fam { name: "dead", max: 70000, make: dead },
];

pub const MODULES: &[Fam] = &[
    Fam { name: "m_series", max: 1100, make: m_series },
    Fam { name: "m_parallel", max: 4100, make: m_parallel },
    Fam { name: "m_nested", max: 300, make: m_nested },
    Fam { name: "m_wide_in", max: 70000, make: m_wide_in },
    Fam { name: "m_wide_out", max: 5000, make: m_wide_out },
    Fam { name: "m_wide_zip", max: 300, make: m_wide_zip },
    Fam { name: "m_many", max: 1100, make: m_many },
    Fam { name: "m_consts", max: 300, make: m_consts },
    Fam { name: "m_deps", max: 300, make: m_deps },
];

/// for checks that build every module gate by gate
pub const MODULES_T: &[Fam] = &[
    Fam { name: "m_series", max: 1100, make: m_series },
    Fam { name: "m_parallel", max: 4100, make: m_parallel },
    Fam { name: "m_nested", max: 130, make: m_nested },
    Fam { name: "m_wide_in", max: 5000, make: m_wide_in },
    Fam { name: "m_wide_out", max: 2100, make: m_wide_out },
    Fam { name: "m_wide_zip", max: 257, make: m_wide_zip },
    Fam { name: "m_many", max: 130, make: m_many },
    Fam { name: "m_consts", max: 300, make: m_consts },
    Fam { name: "m_deps", max: 300, make: m_deps },
];

pub const SMALL_MODULES: &[Fam] = &[
    Fam { name: "m_series", max: 40, make: m_series },
    Fam { name: "m_parallel", max: 40, make: m_parallel },
    Fam { name: "m_nested", max: 20, make: m_nested },
    Fam { name: "m_wide_in", max: 40, make: m_wide_in },
    Fam { name: "m_wide_out", max: 40, make: m_wide_out },
    Fam { name: "m_wide_zip", max: 40, make: m_wide_zip },
    Fam { name: "m_many", max: 20, make: m_many },
    Fam { name: "m_consts", max: 40, make: m_consts },
    Fam { name: "m_deps", max: 40, make: m_deps },
];

pub fn sizes(max: usize, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for b in [64usize, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2048, 4096, 10000, 32768, 65536] {
        for d in [b - 1, b, b + 1] {
            v.push(d);
        }
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// Assignments for a wide circuit: all with at most one bit different from all-0 or all-1 at the
/// edge positions, and alternating patterns.
pub fn vectors(n: usize) -> Vec<Vec<bool>> {
    if n <= 3 {
        return (0..1u64 << n).map(|k| bits(k, n)).collect();
    }
    let mut v = vec![vec![false; n], vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 3 == 0).collect()];
    for pos in [0, n / 2, n - 1] {
        let mut a = vec![false; n];
        a[pos] = true;
        v.push(a);
        let mut a = vec![true; n];
        a[pos] = false;
        v.push(a);
    }
    v
}

pub fn to_lanes(n: usize, vecs: &[Vec<bool>]) -> Vec<u64> {
    let mut l = vec![0u64; n];
    for (k, a) in vecs.iter().enumerate() {
        for i in 0..n {
            if a[i] {
                l[i] |= 1 << k;
            }
        }
    }
    l
}

/// for checks that export every call gate by gate
pub const EXPORT_MODULES: &[Fam] = &[
    Fam { name: "m_series", max: 1100, make: m_series },
    Fam { name: "m_parallel", max: 1100, make: m_parallel },
    Fam { name: "m_nested", max: 130, make: m_nested },
    Fam { name: "m_wide_in", max: 2100, make: m_wide_in },
    Fam { name: "m_wide_out", max: 1100, make: m_wide_out },
    Fam { name: "m_wide_zip", max: 257, make: m_wide_zip },
    Fam { name: "m_many", max: 300, make: m_many },
    Fam { name: "m_consts", max: 130, make: m_consts },
    Fam { name: "m_deps", max: 130, make: m_deps },
];
