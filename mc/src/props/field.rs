//! C18, C19, C26: field arithmetic.

use super::arith::*;
use super::builders::*;
use crate::bdd::{Bdd, Cap};
use crate::comb::*;
use crate::explore::*;
use circuit_converters::num_bigint::BigUint;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Field {
    n: usize,
    p: BigUint,
    r: usize,
}

fn big(x: u64) -> BigUint {
    BigUint::from(x)
}

fn fp_op(name: &'static str, f: &Field) -> Op {
    let (n, p, r) = (f.n, f.p.clone(), f.r);
    let one_arg = name == "neg" || name.ends_with("_self");
    let none = name == "zero" || name == "one";
    let arity = if none { 0 } else if one_arg { 1 } else { 2 };
    let base: &str = name.trim_end_matches("_self").trim_end_matches("_assign");
    let base: &'static str = ["add", "sub", "neg", "mul", "zero", "one", "eq", "neq", "eq_sum"].iter().find(|x| **x == base).copied().unwrap();
    let n_out = match base {
        "eq" | "neq" => 1,
        "eq_sum" => 2,
        _ => n,
    };
    let p64 = low64(&p);
    let small = move |o: &[u64]| -> Option<u128> {
        if o.iter().any(|x| *x >= p64) {
            return None;
        }
        let (a, b) = match arity {
            0 => (0, 0),
            _ => (o[0] as u128, o[arity - 1] as u128),
        };
        let q = p64 as u128;
        Some(match base {
            "add" => (a + b) % q,
            "sub" => (q + a - b) % q,
            "neg" => (q - a) % q,
            "mul" => a * b % q,
            "zero" => 0,
            "one" => 1,
            "eq" => (a == b) as u128,
            "neq" => (a != b) as u128,
            _ => 1,
        })
    };
    let (p2, p3, p4) = (p.clone(), p.clone(), p.clone());
    let bigf = move |o: &[BigUint]| -> Option<BigUint> {
        if o.iter().any(|x| *x >= p2) {
            return None;
        }
        let z = big(0);
        let (a, b) = match arity {
            0 => (&z, &z),
            _ => (&o[0], &o[arity - 1]),
        };
        Some(match base {
            "add" => (a + b) % &p2,
            "sub" => (&p2 + a - b) % &p2,
            "neg" => (&p2 - a) % &p2,
            "mul" => a * b % &p2,
            "zero" => big(0),
            "one" => big(1),
            "eq" => big((a == b) as u64),
            "neq" => big((a != b) as u64),
            _ => big(1),
        })
    };
    let sym = move |b: &mut Bdd, o: &[Vec<u32>]| -> Result<(Vec<u32>, u32), Cap> {
        let pc: Vec<u32> = big_bits(&p3, n).iter().map(|x| *x as u32).collect();
        let (x, y) = (&o[0], &o[arity - 1]);
        let mut pre = sym_ult(b, x, &pc)?;
        if arity == 2 {
            let q = sym_ult(b, y, &pc)?;
            pre = b.and(pre, q)?;
        }
        let npc = sym_not(b, &pc)?;
        let r = match base {
            "add" => {
                let s = sym_add(b, x, y, 0)?;
                let lt = sym_ult(b, &s, &pc)?;
                let red = sym_add(b, &s, &npc, 1)?;
                sym_mux(b, lt, &red, &s)?
            }
            "sub" | "neg" => {
                let (l, s) = if base == "neg" { (vec![0; n], x.clone()) } else { (x.clone(), y.clone()) };
                let ns = sym_not(b, &s)?;
                let d = sym_add(b, &l, &ns, 1)?;
                let lt = sym_ult(b, &l, &s)?;
                let up = sym_add(b, &d, &pc, 0)?;
                sym_mux(b, lt, &d, &up)?
            }
            "eq" | "neq" => {
                let e = sym_eq(b, x, y)?;
                vec![if base == "eq" { e } else { b.not(e)? }]
            }
            "eq_sum" => vec![1, 0],
            _ => panic!("no symbolic oracle"),
        };
        Ok((r, pre))
    };
    Op {
        name: format!("field {} modulo {} with N={} r={}", name, p, n, r),
        build: Arc::new(move || Ok(fp_circ(name, n, &p4, r)?.0)),
        ws: vec![n; arity],
        n_out,
        small: if n <= 31 { Some(Arc::new(small)) } else { None },
        big: Some(Arc::new(bigf)),
        sym: Some(Arc::new(sym)),
        known: if base == "mul" { Some(("mul-zero", |got, want| *got == big(0) && *want != big(0))) } else { None },
    }
}

fn sym_mux(b: &mut Bdd, s: u32, zero: &[u32], one: &[u32]) -> Result<Vec<u32>, Cap> {
    let ns = b.not(s)?;
    zero.iter()
        .zip(one)
        .map(|(z, o)| {
            let u = b.and(ns, *z)?;
            let v = b.and(s, *o)?;
            b.or(u, v)
        })
        .collect()
}

/// v / 2^r modulo p, by halving
fn redc_spec(v: &BigUint, p: &BigUint, r: usize) -> BigUint {
    let mut x = v % p;
    for _ in 0..r {
        if x.bit(0) {
            x += p;
        }
        x >>= 1;
    }
    x
}

fn redc_op(f: &Field) -> Op {
    let (n, p, r) = (f.n, f.p.clone(), f.r);
    let p64 = low64(&p);
    let (p2, p3) = (p.clone(), p.clone());
    Op {
        name: format!("Montgomery reduction modulo {} with N={} r={}", p, n, r),
        build: Arc::new(move || Ok(fp_circ("redc", n, &p3, r)?.0)),
        ws: vec![n],
        n_out: n,
        small: if n <= 31 {
            Some(Arc::new(move |o| {
                if o[0] >= p64 << r {
                    return None;
                }
                let mut x = o[0] % p64;
                for _ in 0..r {
                    x = if x & 1 == 1 { (x + p64) / 2 } else { x / 2 };
                }
                Some(x as u128)
            }))
        } else {
            None
        },
        big: Some(Arc::new(move |o| if o[0] >= &p2 << r { None } else { Some(redc_spec(&o[0], &p2, r)) })),
        sym: None,
        known: None,
    }
}

fn bits_of(p: u64) -> usize {
    64 - p.leading_zeros() as usize
}

/// smallest N with 4p <= 2^N
fn min_n(p: &BigUint) -> usize {
    (4u32 * p - 1u32).bits() as usize
}

fn hexp(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

/// Moduli with larger widths.
fn wide_fields(th: bool) -> Vec<Field> {
    let mut v = vec![];
    let mut add = |p: BigUint, extra: usize| {
        let n = min_n(&p) + extra;
        let n = WIDTHS.iter().copied().find(|w| *w >= n).unwrap();
        let r = p.bits() as usize;
        v.push(Field { n, p, r });
    };
    for (p, x) in [(65521u64, 0usize), (65537, 0), (65537, 1), (99991, 3), (1 << 20 | 1, 0), (16777213, 0), ((1 << 24) - 1, 2), (1_000_000_007, 0), (1_000_000_007, 1), (2147483647, 0), (2147483649, 0), (4294967291, 0), (4294967295, 2)] {
        add(big(p), x);
    }
    for (p, x) in [((1u64 << 61) - 1, 0), ((1 << 62) - 57, 0), ((1 << 62) + 135, 0), (u64::MAX - 58, 0)] {
        add(big(p), x);
    }
    if th {
        add(hexp("3fffffffffffffffffffffffe3"), 0);
        add(pow2(127) - 1u32, 0);
        add(pow2(128) - 159u32, 0);
        add(pow2(255) - 19u32, 0);
        add(hexp("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47"), 0);
        add(hexp("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), 0);
    } else {
        add(pow2(127) - 1u32, 0);
    }
    v
}

/// Elements of a field worth trying: characteristic values below p, and p - x for small and characteristic x.
fn elements(p: &BigUint) -> Vec<BigUint> {
    let w = p.bits() as usize;
    let mut v: Vec<BigUint> = vec![];
    for x in edges(w).into_iter().chain((0..4).map(big)).chain([p >> 1usize, (p >> 1usize) + 1u32, p / 3u32]) {
        let x = x % p;
        v.push((p - &x) % p);
        v.push(x);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

const ADDS: &[&str] = &["add", "sub", "neg", "add_assign", "sub_assign", "add_self", "sub_self", "eq", "neq", "eq_sum"];

pub fn c18(th: bool) -> Vec<Suite> {
    // every odd modulus below a bound, at several widths and radices
    let small_fields = |top: u64, extra: usize| -> Vec<Field> {
        let mut v = vec![];
        for p in (3..top).step_by(2) {
            for x in 0..=extra {
                let n = min_n(&big(p)) + x;
                for r in [bits_of(p), n] {
                    // the larger radix only at the smallest width
                    if r == bits_of(p) || (x == 0 && r == n) {
                        v.push(Field { n, p: big(p), r });
                    }
                }
            }
        }
        v
    };
    let small = small_fields(if th { 512 } else { 128 }, 2);
    let tiny = small_fields(if th { 64 } else { 20 }, 1);
    let wide = wide_fields(th);
    let wide2 = wide.clone();
    vec![
        suite("all elements", "all pairs of elements for every odd modulus from 3 to 127 (511), at the smallest admissible width and one and two bits more, two radices; addition, subtraction, negation, assignments, same operand, equality, and equality of two expressions for one value", move |ch| {
            let f = ch.pick(&small);
            let o = ch.pick(ADDS);
            let op = fp_op(o, &f);
            let k = ch.choose(chunks(&op));
            exhaustive(ch, &op, k)
        }),
        suite("evaluator", "all pairs of elements for every odd modulus from 3 to 19 (63) on the implementation's evaluator, zero and one included", move |ch| {
            let f = ch.pick(&tiny);
            let mut ops = ADDS.to_vec();
            ops.extend(["zero", "one"]);
            let o = ch.pick(&ops);
            let op = fp_op(o, &f);
            let p = low64(&f.p);
            let elems: Vec<BigUint> = (0..p).map(big).collect();
            let vecs = product(&vec![elems; op.ws.len()]);
            ch.state(&(o, f.n, p, f.r));
            ch.say(|| op.name.clone());
            real(ch, &op, &vecs)
        }),
        suite("symbolic", "addition, subtraction, negation, assignments and equality for 18 (23) moduli from 16 to 127 (256) bits: all pairs of elements at once by BDDs, compared with a conditional subtraction on the oracle's side", move |ch| {
            let f = ch.pick(&wide);
            let ops: &[&'static str] = if f.n > 100 { &["add", "sub"] } else { &["add", "sub", "neg", "add_assign", "sub_assign", "add_self", "sub_self", "eq_sum"] };
            let o = ch.pick(ops);
            ch.state(&(o, f.n, f.p.to_string()));
            symbolic(ch, &fp_op(o, &f), 30_000_000)
        }),
        suite("evaluator at edges", "pairs of characteristic elements for the same moduli up to 64 bits on the implementation's evaluator", move |ch| {
            let f = ch.pick(&wide2);
            if f.n > 66 {
                return Ok(());
            }
            let o = ch.pick(&["add", "sub", "neg", "zero", "one"]);
            let op = fp_op(o, &f);
            let mut e = elements(&f.p);
            e.truncate(if th { 30 } else if f.n > 40 { 8 } else { 14 });
            let mut l = vec![e.clone(); op.ws.len()];
            if !l.is_empty() {
                let i = ch.choose(e.len());
                l[0] = vec![e[i].clone()];
            }
            ch.state(&(o, f.n, f.p.to_string(), format!("{:?}", l.first())));
            real(ch, &op, &product(&l))
        }),
        super::wirings::field(3, 4, th),
        super::wirings::field(5, 5, th),
        super::scopes::of(th, super::scopes::FIELD),
    ]
}

/// p_minus_inv and r2 of the configuration
fn constants(f: &Field) -> Result<(BigUint, BigUint), String> {
    let (_, i, r2) = fp_circ("config", f.n, &f.p, f.r)?;
    Ok((i, r2))
}

fn mont_fields(th: bool, max_r: usize, widths: &[usize]) -> Vec<Field> {
    let _ = th;
    let mut v = vec![];
    for r in 2..=max_r {
        for p in (3..1u64 << r).step_by(2) {
            for x in widths {
                v.push(Field { n: 2 * r + 2 + x, p: big(p), r });
            }
        }
    }
    v
}

fn typical(r: usize) -> Vec<BigUint> {
    vec![pow2(r) - 1u32, pow2(r) - 3u32, pow2(r - 1) + 1u32, pow2(r / 2) + 1u32, pow2(r) / 3u32 | big(1), big(3), big(65521) % pow2(r) | big(1)]
}

fn larger_fields(rs: std::ops::RangeInclusive<usize>) -> Vec<Field> {
    rs.flat_map(|r| typical(r).into_iter().map(move |p| Field { n: 2 * r + 2, p, r })).collect()
}

fn wide_mont(th: bool) -> Vec<Field> {
    let mut v = vec![];
    let mut add = |r: usize, p: BigUint| {
        for x in if th || r < 16 { vec![0, 2] } else { vec![0] } {
            let n = WIDTHS.iter().copied().find(|w| *w >= 2 * r + 2 + x).unwrap();
            v.push(Field { n, p: p.clone(), r });
        }
    };
    for r in if th { vec![11usize, 12, 16, 17, 23, 24, 31, 32, 48, 63, 64] } else { vec![12, 17, 24, 31] } {
        for p in typical(r) {
            add(r, p);
        }
    }
    if th {
        add(127, pow2(127) - 1u32);
        add(127, pow2(126) + 9u32);
    } else {
        add(63, pow2(61) - 1u32);
    }
    v
}

/// Large radices, for the published constants only.
fn const_fields(th: bool) -> Vec<Field> {
    let mut v = vec![];
    for r in [16usize, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 95, 96, 97, 99, 127, 128] {
        let n = WIDTHS.iter().copied().find(|w| *w >= 2 * r + 2).unwrap();
        let ps = [pow2(r) - 1u32, big(3), pow2(r) - 3u32, pow2(r - 1) + 1u32, pow2(r / 2) + 1u32, pow2(r) / 3u32 | big(1), pow2(r) / 7u32 | big(1), pow2(r - 3) - 1u32, pow2(r) - (pow2(r / 2) | big(1)), big(65521) % pow2(r) | big(1)];
        let keep = if th { ps.len() } else if r < 66 { 6 } else { 3 };
        for p in ps.into_iter().take(keep) {
            v.push(Field { n, p, r });
        }
    }
    v
}

pub fn c26(th: bool) -> Vec<Suite> {
    let small = mont_fields(th, if th { 9 } else { 7 }, &[0, 1, 3]);
    let larger = larger_fields(8..=if th { 14 } else { 12 });
    let tiny = mont_fields(th, if th { 5 } else { 4 }, &[0, 1]);
    let inv: Vec<Field> = mont_fields(th, if th { 12 } else { 10 }, &[0]);
    let wide = wide_mont(th);
    let wide2: Vec<Field> = wide.iter().cloned().chain(const_fields(th)).collect();
    vec![
        suite("all arguments", "every argument below p*2^r for every odd modulus p from 3 below 2^r, r from 2 to 7 (9), at N = 2r+2, 2r+3 and 2r+5; oracle: r halvings modulo p", move |ch| {
            let f = ch.pick(&small);
            let op = redc_op(&f);
            let k = ch.choose(chunks(&op));
            exhaustive(ch, &op, k)
        }),
        suite("all arguments, larger radices", "every argument below p*2^r for seven moduli at every r from 8 to 12 (14), at N = 2r+2", move |ch| {
            let f = ch.pick(&larger);
            let op = redc_op(&f);
            let top = low64(&f.p) << f.r;
            let k = ch.choose(chunks(&op).min((top as usize >> 16) + 1));
            exhaustive(ch, &op, k)
        }),
        suite("evaluator", "every argument for r from 2 to 4 (5) on the implementation's evaluator", move |ch| {
            let f = ch.pick(&tiny);
            let op = redc_op(&f);
            let top = low64(&f.p) << f.r;
            let parts = (top as usize + 511) / 512;
            let k = ch.choose(parts) as u64;
            ch.state(&(f.n, low64(&f.p), f.r, k));
            ch.say(|| op.name.clone());
            real(ch, &op, &(k * 512..(k * 512 + 512).min(top)).map(|x| vec![big(x)]).collect::<Vec<_>>())
        }),
        suite("inverse", "the published p_minus_inv for every odd modulus from 3 below 2^r, r from 2 to 10 (12), for the moduli of the next suite, and for up to six (ten) moduli at each of 19 radices from 16 to 128 bits", move |ch| {
            let i = ch.choose(inv.len() + wide2.len());
            let f = if i < inv.len() { &inv[i] } else { &wide2[i - inv.len()] };
            let (x, _) = constants(f)?;
            ch.evals(1);
            ch.state(&(f.p.to_string(), f.r));
            ch.outcome(&x.to_string());
            let m = pow2(f.r);
            if x == big(0) || x >= m || (&x * &f.p) % &m != &m - 1u32 {
                return Err(format!("p_minus_inv is {} for p = {} and r = {}", x, f.p, f.r));
            }
            ch.say(|| format!("p = {}, r = {}: {}", f.p, f.r, x));
            Ok(())
        }),
        suite("wide", "for r from 12 to 63 (127) and up to seven moduli each, one or two widths: products of characteristic elements, multiples of p and of 2^r and their neighbours up to p*2^r-1, each with every (in the quick tier every fifth) single bit flipped", move |ch| {
            let f = ch.pick(&wide);
            let op = redc_op(&f);
            let e = elements(&f.p);
            let i = ch.choose(e.len() + 2);
            let top = (&f.p << f.r) - 1u32;
            let mut base: Vec<BigUint> = vec![];
            if i < e.len() {
                for b in &e {
                    base.push(&e[i] * b);
                }
                base.push(&e[i] << f.r);
                base.push((&e[i] << f.r) + (pow2(f.r) - 1u32));
                base.push(&e[i] * &f.p);
                base.push(&e[i] * &f.p + &f.p - 1u32);
            } else if i == e.len() {
                for k in 0..40u32 {
                    if big(k as u64) <= top {
                        base.push(&top - k);
                        base.push(big(k as u64));
                    }
                }
            } else {
                base.extend(runs(f.n, 1));
            }
            let w = (top.bits() as usize).min(f.n);
            let step = if f.n > 66 { 16 } else if th { 1 } else { 5 };
            let vecs: Vec<Vec<BigUint>> = base.iter().flat_map(|b| flips(b, w, step)).map(|x| vec![x]).filter(|x| x[0] <= top).collect();
            batch(ch, &op, &vecs)?;
            // the evaluator on a few
            if f.n <= 66 {
                let few: Vec<Vec<BigUint>> = base.iter().step_by(if th { 7 } else { 23 }).map(|x| vec![x.clone()]).collect();
                real(ch, &op, &few)?;
            }
            ch.say(|| format!("{}: around element {}", op.name, i));
            Ok(())
        }),
    ]
}

pub fn c19(th: bool) -> Vec<Suite> {
    let small = mont_fields(th, if th { 7 } else { 5 }, &[0, 1, 3]);
    let larger = larger_fields(6..=if th { 11 } else { 9 });
    let tiny = mont_fields(th, if th { 4 } else { 3 }, &[0, 2]);
    let consts: Vec<Field> = {
        let mut v = mont_fields(th, if th { 11 } else { 9 }, &[0]);
        v.extend(wide_mont(th));
        v.extend(const_fields(th));
        v
    };
    let wide = wide_mont(th);
    const MULS: &[&str] = &["mul", "mul_assign", "mul_self"];
    vec![
        suite("all elements", "all pairs of elements for every odd modulus from 3 below 2^r, r from 2 to 5 (7), at N = 2r+2, 2r+3, 2r+5", move |ch| {
            let f = ch.pick(&small);
            let o = ch.pick(MULS);
            let op = fp_op(o, &f);
            let p = low64(&f.p);
            let a = ch.choose(p as usize) as u64;
            let vecs: Vec<Vec<BigUint>> = if op.ws.len() == 1 { vec![vec![big(a)]] } else { (0..p).map(|b| vec![big(a), big(b)]).collect() };
            ch.say(|| format!("{}: {} by every element", op.name, a));
            batch(ch, &op, &vecs)
        }),
        suite("all elements, larger radices", "all pairs of elements for seven moduli at every r from 6 to 9 (11), at N = 2r+2", move |ch| {
            let f = ch.pick(&larger);
            let op = fp_op("mul", &f);
            let p = low64(&f.p) as usize;
            let a = ch.choose((p + 63) / 64) * 64;
            let vecs: Vec<Vec<BigUint>> = (a..p.min(a + 64)).flat_map(|a| (0..p).map(move |b| vec![big(a as u64), big(b as u64)])).collect();
            ch.say(|| format!("{}: {} to {} by every element", op.name, a, p.min(a + 64) - 1));
            batch(ch, &op, &vecs)
        }),
        suite("evaluator", "all pairs of elements, r up to 3 (4), on the implementation's evaluator", move |ch| {
            let f = ch.pick(&tiny);
            let o = ch.pick(MULS);
            let op = fp_op(o, &f);
            let elems: Vec<BigUint> = (0..low64(&f.p)).map(big).collect();
            ch.state(&(o, f.n, low64(&f.p), f.r));
            ch.say(|| op.name.clone());
            real(ch, &op, &product(&vec![elems; op.ws.len()]))
        }),
        suite("constant", "the published r2 for every odd modulus from 3 below 2^r, r from 2 to 9 (11), and wide ones: those of the next suite and up to six (ten) at each of 19 radices from 16 to 128 bits", move |ch| {
            let f = ch.pick(&consts);
            let (_, r2) = constants(&f)?;
            ch.evals(1);
            ch.state(&(f.p.to_string(), f.r));
            ch.outcome(&r2.to_string());
            let want = pow2(2 * f.r) % &f.p;
            if r2 != want {
                let m = format!("r2 is {} for p = {} and r = {}, expected {}", r2, f.p, f.r, want);
                if r2 == big(0) {
                    return ch.known("r2-zero", m);
                }
                return Err(m);
            }
            Ok(())
        }),
        suite("wide", "for r from 12 to 63 (127), up to seven moduli each, one or two widths: all pairs of characteristic elements", move |ch| {
            let f = ch.pick(&wide);
            let op = fp_op("mul", &f);
            let e = elements(&f.p);
            let i = ch.choose(e.len());
            let vecs: Vec<Vec<BigUint>> = e.iter().map(|b| vec![e[i].clone(), b.clone()]).collect();
            ch.say(|| format!("{}: {} by characteristic elements", op.name, e[i]));
            batch(ch, &op, &vecs)
        }),
    ]
}
