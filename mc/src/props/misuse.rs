//! C30: values the builders cannot represent are rejected.

use super::builders::*;
use crate::any_width;
use crate::explore::*;
use crate::model::*;
use circuit_converters::*;
use num_bigint::BigUint;

/// Err when the call was accepted.
fn rejected<T, E>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R {
    match imp(what, f) {
        Err(_) | Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{} was accepted", what)),
    }
}

fn accepted<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    imp(what, f)?.map_err(|e| format!("{}: {}", what, e))
}

fn gates(c: &mut Circ, n: usize) -> Result<Vec<GateId>, String> {
    (0..n).map(|_| accepted("input", || c.input())).collect()
}

fn err<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

const R_EXP: usize = 2;

fn field<const N: usize>(c: &Circ) -> Result<FpCfg<N>, String> {
    let ic = accepted("the configuration", || IntCfg::<N>::new(c))?;
    accepted("the field configuration", || FpCfg::<N>::new(c, &ic, BigUint::from(3u32), R_EXP))
}

/// All constructors with `extra` gates too many, in every kind of order.
fn too_many<const N: usize>(extra: usize, kind: usize) -> R {
    let mut c = new_circ();
    let g = gates(&mut c, N + extra)?;
    let k = accepted("constant", || c.constant(false))?;
    let g: Vec<GateId> = match kind {
        0 => g,
        // gates too many that are constant 0, so that a shortened value would be the same
        1 => g.iter().enumerate().map(|(i, g)| if i < N { *g } else { k }).collect(),
        _ => vec![k; N + extra],
    };
    let w = format!("{} gates for {} bits", N + extra, N);
    let cfg = accepted("the configuration", || IntCfg::<N>::new(&c))?;
    accepted("an integer of as many gates as bits", || Int::<N>::from_gate_ids(g[..N].to_vec(), &cfg))?;
    rejected(&format!("an integer of {}", w), || Int::<N>::from_gate_ids(g.clone(), &cfg))?;
    let cfg = accepted("the configuration", || BitsCfg::<N>::new(&c))?;
    accepted("a bit vector of as many gates as bits", || Bits::<N>::from_gate_ids(g[..N].to_vec(), &cfg))?;
    rejected(&format!("a bit vector of {}", w), || Bits::<N>::from_gate_ids(g.clone(), &cfg))?;
    if N >= 2 * R_EXP + 2 && N <= 24 {
        let cfg = field::<N>(&c)?;
        rejected(&format!("a field element of {}", w), || Ok::<_, String>(Fp::<N>::from_gate_ids_unchecked(g.clone(), &cfg)))?;
    }
    Ok(())
}

fn too_large<const N: usize>(vs: &[BigUint]) -> R {
    let c = new_circ();
    let cfg = accepted("the configuration", || IntCfg::<N>::new(&c))?;
    accepted("the largest integer", || Int::<N>::from_biguint(&((BigUint::from(1u32) << N) - 1u32), &cfg))?;
    for v in vs {
        rejected(&format!("the integer {:#x} of {} bits", v, N), || Int::<N>::from_biguint(v, &cfg))?;
    }
    if N >= 2 * R_EXP + 2 && N <= 24 {
        let cfg = field::<N>(&c)?;
        for v in vs {
            rejected(&format!("the field element {:#x} of {} bits", v, N), || Ok::<_, String>(Fp::<N>::from_biguint_unchecked(v, &cfg)))?;
        }
    }
    Ok(())
}

const INT_OPS: &[&str] = &["add", "sub", "mul", "neg", "add_assign", "sub_assign", "mul_assign", "eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq", "output"];

/// a with an unknown gate at `at`, b with one there, or both.
fn int_unknown<const N: usize>(op: &str, at: usize, who: usize, bad: GateId) -> R {
    let mut c = new_circ();
    let cfg = accepted("the configuration", || IntCfg::<N>::new(&c))?;
    let g = gates(&mut c, 2 * N)?;
    let (mut l, mut r) = (g[..N].to_vec(), g[N..].to_vec());
    if who != 1 {
        l[at] = bad;
    }
    if who != 0 {
        r[at] = bad;
    }
    rejected(&format!("{} with the unknown gate {} as bit {} of {} bits ({})", op, bad, at, N, who), || -> Result<(), String> {
        let a = Int::<N>::from_gate_ids(l, &cfg).map_err(err)?;
        let b = Int::<N>::from_gate_ids(r, &cfg).map_err(err)?;
        let mut x = a.clone();
        match op {
            "add" => drop(&a + &b),
            "sub" => drop(&a - &b),
            "mul" => drop(&a * &b),
            "neg" => drop(-&a),
            "add_assign" => x += &b,
            "sub_assign" => x -= &b,
            "mul_assign" => x *= &b,
            "eq" => drop(a.eq(&b).map_err(err)?),
            "neq" => drop(a.neq(&b).map_err(err)?),
            "less" => drop(a.less(&b).map_err(err)?),
            "less_or_eq" => drop(a.less_or_eq(&b).map_err(err)?),
            "larger" => drop(a.larger(&b).map_err(err)?),
            "larger_or_eq" => drop(a.larger_or_eq(&b).map_err(err)?),
            _ => a.output().map_err(err)?,
        }
        Ok(())
    })
}

const BITS_OPS: &[&str] = &["not", "and", "or", "xor", "and_assign", "or_assign", "xor_assign", "eq", "neq", "mux", "output"];

fn bits_unknown<const N: usize>(op: &str, at: usize, who: usize, bad: GateId) -> R {
    let mut c = new_circ();
    let cfg = accepted("the configuration", || BitsCfg::<N>::new(&c))?;
    let g = gates(&mut c, 2 * N + 1)?;
    let (mut l, mut r) = (g[..N].to_vec(), g[N..2 * N].to_vec());
    if who != 1 {
        l[at] = bad;
    }
    if who != 0 {
        r[at] = bad;
    }
    rejected(&format!("{} with the unknown gate {} as bit {} of {} bits ({})", op, bad, at, N, who), || -> Result<(), String> {
        let a = Bits::<N>::from_gate_ids(l, &cfg).map_err(err)?;
        let b = Bits::<N>::from_gate_ids(r, &cfg).map_err(err)?;
        let mut x = a.clone();
        match op {
            "not" => drop(!&a),
            "and" => drop(&a & &b),
            "or" => drop(&a | &b),
            "xor" => drop(&a ^ &b),
            "and_assign" => x &= &b,
            "or_assign" => x |= &b,
            "xor_assign" => x ^= &b,
            "eq" => drop(a.eq(&b).map_err(err)?),
            "neq" => drop(a.neq(&b).map_err(err)?),
            "mux" => drop(a.mux(&b, &g[2 * N]).map_err(err)?),
            _ => a.output().map_err(err)?,
        }
        Ok(())
    })
}

fn mux_unknown<const N: usize>(bad: GateId) -> R {
    let mut c = new_circ();
    let cfg = accepted("the configuration", || BitsCfg::<N>::new(&c))?;
    let g = gates(&mut c, 2 * N)?;
    rejected(&format!("a selection by the unknown gate {} of {} bits", bad, N), || -> Result<(), String> {
        let a = Bits::<N>::from_gate_ids(g[..N].to_vec(), &cfg).map_err(err)?;
        let b = Bits::<N>::from_gate_ids(g[N..].to_vec(), &cfg).map_err(err)?;
        a.mux(&b, &bad).map(drop).map_err(err)
    })
}

const FP_OPS: &[&str] = &["add", "sub", "mul", "neg", "add_assign", "sub_assign", "mul_assign", "eq", "neq", "output"];

fn fp_unknown<const N: usize>(op: &str, at: usize, who: usize, bad: GateId) -> R {
    let mut c = new_circ();
    let cfg = field::<N>(&c)?;
    let g = gates(&mut c, 2 * N)?;
    let (mut l, mut r) = (g[..N].to_vec(), g[N..].to_vec());
    if who != 1 {
        l[at] = bad;
    }
    if who != 0 {
        r[at] = bad;
    }
    rejected(&format!("{} with the unknown gate {} as bit {} of {} bits ({})", op, bad, at, N, who), || -> Result<(), String> {
        let a = Fp::<N>::from_gate_ids_unchecked(l, &cfg);
        let b = Fp::<N>::from_gate_ids_unchecked(r, &cfg);
        let mut x = a.clone();
        match op {
            "add" => drop(&a + &b),
            "sub" => drop(&a - &b),
            "mul" => drop(&a * &b),
            "neg" => drop(-&a),
            "add_assign" => x += &b,
            "sub_assign" => x -= &b,
            "mul_assign" => x *= &b,
            "eq" => drop(a.eq(&b).map_err(err)?),
            "neq" => drop(a.neq(&b).map_err(err)?),
            _ => a.output().map_err(err)?,
        }
        Ok(())
    })
}

const BAD: &[u64] = &[1 << 40, u64::MAX, (1 << 32) + 1];

pub fn c30(th: bool) -> Vec<Suite> {
    let widths = |top: usize| WIDTHS.iter().copied().filter(|w| *w <= top).collect::<Vec<_>>();
    let many = move |ch: &mut Ch| {
        let n = ch.pick(&widths(if th { 130 } else { 66 }));
        let extra = ch.pick(&[1usize, 2, 3, 7, 8, 9, n, n + 1, 64, 65]);
        let kind = ch.choose(3);
        ch.state(&(n, extra, kind));
        ch.evals(3);
        any_width!(n, too_many, (extra, kind))
    };
    let large = move |ch: &mut Ch| {
        let n = ch.pick(&widths(if th { 257 } else { 129 }));
        let one = BigUint::from(1u32);
        let top = &one << n;
        let mut vs: Vec<BigUint> = vec![];
        let exhaustive = if th { 10 } else { 8 };
        if n <= exhaustive {
            vs.extend((1u32 << n..1 << (n + 4)).map(BigUint::from));
        }
        for k in (0..=n).chain([n + 1, n + 7, n + 8, n + 9, n + 56, n + 63, n + 64, n + 65, 8 * n]) {
            vs.push(&top + (&one << k) - &one);
            vs.push(&top + (&one << k));
            vs.push((&top << k) + &one);
            vs.push(&top << k);
            vs.push((&top << (k + 1)) - &one);
        }
        ch.state(&n);
        ch.evals(vs.len() as u64);
        any_width!(n, too_large, (&vs))
    };
    let ints = move |ch: &mut Ch| {
        let n = ch.pick(if th { &[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33][..] } else { &[1usize, 2, 3, 4, 5, 8, 9, 16] });
        let op = ch.pick(INT_OPS);
        let at = ch.choose(n);
        let who = if matches!(op, "neg" | "output") { 0 } else { ch.choose(3) };
        let bad = GateId(ch.pick(BAD));
        ch.state(&(n, op, at, who, bad.0));
        ch.evals(1);
        any_width!(n, int_unknown, (op, at, who, bad))
    };
    let vecs = move |ch: &mut Ch| {
        let n = ch.pick(if th { &[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65][..] } else { &[1usize, 2, 3, 4, 5, 8, 9, 16, 33] });
        let op = ch.pick(BITS_OPS);
        let at = ch.choose(n);
        let who = if matches!(op, "not" | "output") { 0 } else { ch.choose(3) };
        let bad = GateId(ch.pick(BAD));
        ch.state(&(n, op, at, who, bad.0));
        ch.evals(1);
        if op == "mux" && at == 0 && who == 0 {
            any_width!(n, mux_unknown, (bad))?;
        }
        any_width!(n, bits_unknown, (op, at, who, bad))
    };
    let fps = move |ch: &mut Ch| {
        let n = ch.pick(if th { &[6usize, 7, 8, 12][..] } else { &[6usize, 8] });
        let op = ch.pick(FP_OPS);
        let at = ch.choose(n);
        let who = if matches!(op, "neg" | "output") { 0 } else { ch.choose(3) };
        let bad = GateId(ch.pick(BAD));
        ch.state(&(n, op, at, who, bad.0));
        ch.evals(1);
        any_width!(n, fp_unknown, (op, at, who, bad))
    };
    vec![
        suite("too many gates", "integers, bit vectors and field elements of every width up to 66 (130) made from 1 to 65 gates too many, inputs or constants: rejected", many),
        suite("too large values", "integer and field constants of every width up to 129 (257): all values from 2^N to 2^(N+4) up to width 8 (10), else 2^N plus and times every power of two, and their neighbours: rejected", large),
        suite("integers of unknown gates", "every operation on integers with an unknown gate at every position of the left, the right or both operands: rejected", ints),
        suite("bit vectors of unknown gates", "the same for bit vectors, and selections by an unknown gate", vecs),
        suite("field elements of unknown gates", "the same for field elements", fps),
    ]
}
