//! C14-C17: integers and bit vectors.

use super::builders::*;
use crate::bdd::{Bdd, Cap};
use crate::comb::*;
use crate::explore::*;
use crate::model::clip;
use circuit_converters::num_bigint::BigUint;
use std::sync::Arc;

fn mask(n: usize) -> u64 {
    if n >= 64 {
        !0
    } else {
        (1 << n) - 1
    }
}

pub fn pow2(n: usize) -> BigUint {
    BigUint::from(1u32) << n
}

/// two's complement value
fn signed(x: u64, n: usize) -> i64 {
    if x >> (n - 1) & 1 == 1 {
        (x | !mask(n)) as i64
    } else {
        x as i64
    }
}

/// order of two's complement integers: the sign bit inverted, compared as unsigned
fn key(x: &BigUint, n: usize) -> BigUint {
    x ^ pow2(n - 1)
}

pub fn sym_add(b: &mut Bdd, x: &[u32], y: &[u32], mut carry: u32) -> Result<Vec<u32>, Cap> {
    let mut r = vec![];
    for (p, q) in x.iter().zip(y) {
        let s = b.xor(*p, *q)?;
        r.push(b.xor(s, carry)?);
        let g = b.and(*p, *q)?;
        let t = b.and(s, carry)?;
        carry = b.or(g, t)?;
    }
    Ok(r)
}

pub fn sym_not(b: &mut Bdd, x: &[u32]) -> Result<Vec<u32>, Cap> {
    x.iter().map(|q| b.not(*q)).collect()
}

/// unsigned x < y
pub fn sym_ult(b: &mut Bdd, x: &[u32], y: &[u32]) -> Result<u32, Cap> {
    let mut lt = 0;
    for (p, q) in x.iter().zip(y) {
        let np = b.not(*p)?;
        let here = b.and(np, *q)?;
        let d = b.xor(*p, *q)?;
        let same = b.not(d)?;
        let keep = b.and(same, lt)?;
        lt = b.or(here, keep)?;
    }
    Ok(lt)
}

pub fn sym_eq(b: &mut Bdd, x: &[u32], y: &[u32]) -> Result<u32, Cap> {
    let mut e = 1;
    for (p, q) in x.iter().zip(y).rev() {
        let d = b.xor(*p, *q)?;
        let s = b.not(d)?;
        e = b.and(s, e)?;
    }
    Ok(e)
}

/// The integer operation of `builders::int_circ`, with its oracles.
pub fn int_op(name: &'static str, n: usize) -> Op {
    let arity = int_arity(name);
    let base: &str = name.trim_end_matches("_self").trim_end_matches("_assign").trim_start_matches("raw_");
    let base: &'static str = ["combo", "add", "sub", "mul", "neg", "neg_neg", "mul_extend", "eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq", "all_cmp"].iter().find(|x| **x == base).copied().unwrap();
    let n_out = match base {
        "mul_extend" => 2 * n,
        "add" | "sub" | "mul" | "neg" | "neg_neg" => n,
        "all_cmp" => 6,
        "combo" => 3 * n + 6,
        _ => 1,
    };
    let cmp_small = move |a: u64, b: u64| -> u128 {
        let (s, t) = (signed(a, n), signed(b, n));
        match base {
            "eq" => (a == b) as u128,
            "neq" => (a != b) as u128,
            "less" => (s < t) as u128,
            "less_or_eq" => (s <= t) as u128,
            "larger" => (s > t) as u128,
            "larger_or_eq" => (s >= t) as u128,
            _ => (a == b) as u128 | ((a != b) as u128) << 1 | ((s < t) as u128) << 2 | ((s <= t) as u128) << 3 | ((s > t) as u128) << 4 | ((s >= t) as u128) << 5,
        }
    };
    let small = move |o: &[u64]| -> Option<u128> {
        let (a, b) = (o[0], o[arity - 1]);
        Some(match base {
            "add" => (a.wrapping_add(b) & mask(n)) as u128,
            "sub" => (a.wrapping_sub(b) & mask(n)) as u128,
            "mul" => (a.wrapping_mul(b) & mask(n)) as u128,
            "neg" => (a.wrapping_neg() & mask(n)) as u128,
            "neg_neg" => a as u128,
            "mul_extend" => a as u128 * b as u128,
            _ => cmp_small(a, b),
        })
    };
    let big = move |o: &[BigUint]| -> Option<BigUint> {
        let (a, b) = (&o[0], &o[arity - 1]);
        let m = pow2(n);
        Some(match base {
            "combo" => {
                let c = key(a, n).cmp(&key(b, n));
                let (eq, lt) = (c.is_eq(), c.is_lt());
                let all = bits_big(&[eq, !eq, lt, lt || eq, !(lt || eq), !lt]);
                (a + b) % &m | ((&m + a - b) % &m) << n | ((&m - a) % &m) << (2 * n) | all << (3 * n)
            }
            "add" => (a + b) % m,
            "sub" => (&m + a - b) % m,
            "mul" => (a * b) % m,
            "neg" => (&m - a) % m,
            "neg_neg" => a.clone(),
            "mul_extend" => a * b,
            _ => {
                let c = key(a, n).cmp(&key(b, n));
                let (eq, lt) = (c.is_eq(), c.is_lt());
                let all = [eq, !eq, lt, lt || eq, !(lt || eq), !lt];
                match base {
                    "eq" => BigUint::from(all[0] as u32),
                    "neq" => BigUint::from(all[1] as u32),
                    "less" => BigUint::from(all[2] as u32),
                    "less_or_eq" => BigUint::from(all[3] as u32),
                    "larger" => BigUint::from(all[4] as u32),
                    "larger_or_eq" => BigUint::from(all[5] as u32),
                    _ => bits_big(&all),
                }
            }
        })
    };
    let sym = move |b: &mut Bdd, o: &[Vec<u32>]| -> Result<(Vec<u32>, u32), Cap> {
        let (x, y) = (&o[0], &o[arity - 1]);
        let r = match base {
            "add" => sym_add(b, x, y, 0)?,
            "sub" => {
                let ny = sym_not(b, y)?;
                sym_add(b, x, &ny, 1)?
            }
            "neg" => {
                let nx = sym_not(b, x)?;
                sym_add(b, &vec![0; n], &nx, 1)?
            }
            "neg_neg" => x.clone(),
            "mul" | "mul_extend" => {
                let w = if base == "mul" { n } else { 2 * n };
                let mut acc = vec![0; w];
                for i in 0..n {
                    let mut row = vec![0; w];
                    for j in 0..n {
                        if i + j < w {
                            row[i + j] = b.and(x[j], y[i])?;
                        }
                    }
                    acc = sym_add(b, &acc, &row, 0)?;
                }
                acc
            }
            _ => {
                let eq = sym_eq(b, x, y)?;
                // opposite signs: the negative one is less
                let lt = {
                    let mut xs = x.clone();
                    let mut ys = y.clone();
                    xs[n - 1] = y[n - 1];
                    ys[n - 1] = x[n - 1];
                    sym_ult(b, &xs, &ys)?
                };
                let le = b.or(lt, eq)?;
                let all = [eq, b.not(eq)?, lt, le, b.not(le)?, b.not(lt)?];
                match base {
                    "combo" => {
                        let mut r = sym_add(b, x, y, 0)?;
                        let ny = sym_not(b, y)?;
                        r.extend(sym_add(b, x, &ny, 1)?);
                        let nx = sym_not(b, x)?;
                        r.extend(sym_add(b, &vec![0; n], &nx, 1)?);
                        r.extend(all);
                        r
                    }
                    "eq" => vec![all[0]],
                    "neq" => vec![all[1]],
                    "less" => vec![all[2]],
                    "less_or_eq" => vec![all[3]],
                    "larger" => vec![all[4]],
                    "larger_or_eq" => vec![all[5]],
                    _ => all.to_vec(),
                }
            }
        };
        Ok((r, 1))
    };
    let _ = signed;
    Op {
        name: format!("int {} of width {}", name, n),
        build: Arc::new(move || int_circ(name, n)),
        ws: vec![n; arity],
        n_out,
        small: if n <= 62 && base != "combo" { Some(Arc::new(small)) } else { None },
        big: Some(Arc::new(big)),
        sym: Some(Arc::new(sym)),
        known: None,
    }
}

pub fn bits_op(name: &'static str, n: usize) -> Op {
    let has_sel = name.starts_with("mux");
    let two = !(name == "not" || name.ends_with("_self"));
    let base: &'static str = ["not", "and", "or", "xor", "eq", "neq", "mux"].iter().find(|x| name.split('_').next() == Some(**x)).copied().unwrap();
    let mut ws = vec![n; if two { 2 } else { 1 }];
    if has_sel {
        ws.push(1);
    }
    let second = two as usize;
    let n_out = if base == "eq" || base == "neq" { 1 } else { n };
    let small = move |o: &[u64]| -> Option<u128> {
        let (a, b) = (o[0], o[second]);
        Some(match base {
            "not" => !a & mask(n),
            "and" => a & b,
            "or" => a | b,
            "xor" => a ^ b,
            "eq" => (a == b) as u64,
            "neq" => (a != b) as u64,
            _ => {
                if o[second + 1] == 0 {
                    a
                } else {
                    b
                }
            }
        } as u128)
    };
    let big = move |o: &[BigUint]| -> Option<BigUint> {
        let (a, b) = (&o[0], &o[second]);
        Some(match base {
            "not" => a ^ (pow2(n) - 1u32),
            "and" => a & b,
            "or" => a | b,
            "xor" => a ^ b,
            "eq" => BigUint::from((a == b) as u32),
            "neq" => BigUint::from((a != b) as u32),
            _ => {
                if o[second + 1] == BigUint::from(0u32) {
                    a.clone()
                } else {
                    b.clone()
                }
            }
        })
    };
    let sym = move |b: &mut Bdd, o: &[Vec<u32>]| -> Result<(Vec<u32>, u32), Cap> {
        let (x, y) = (o[0].clone(), o[second].clone());
        let mut r = vec![];
        match base {
            "eq" => r.push(sym_eq(b, &x, &y)?),
            "neq" => {
                let e = sym_eq(b, &x, &y)?;
                r.push(b.not(e)?)
            }
            _ => {
                for (p, q) in x.iter().zip(&y) {
                    r.push(match base {
                        "not" => b.not(*p)?,
                        "and" => b.and(*p, *q)?,
                        "or" => b.or(*p, *q)?,
                        "xor" => b.xor(*p, *q)?,
                        _ => {
                            let s = o[second + 1][0];
                            let ns = b.not(s)?;
                            let u = b.and(ns, *p)?;
                            let v = b.and(s, *q)?;
                            b.or(u, v)?
                        }
                    });
                }
            }
        }
        Ok((r, 1))
    };
    Op {
        name: format!("bits {} of width {}", name, n),
        build: Arc::new(move || bits_circ(name, n)),
        ws,
        n_out,
        small: if n <= 62 { Some(Arc::new(small)) } else { None },
        big: Some(Arc::new(big)),
        sym: Some(Arc::new(sym)),
        known: None,
    }
}

/// Pairs (or single operands) of the given values, one list per operand.
pub fn product(lists: &[Vec<BigUint>]) -> Vec<Vec<BigUint>> {
    let mut v: Vec<Vec<BigUint>> = vec![vec![]];
    for l in lists {
        v = v.iter().flat_map(|p| l.iter().map(move |x| [&p[..], &[x.clone()]].concat())).collect();
    }
    v
}

type MakeOp = fn(&'static str, usize) -> Op;

/// All values at small widths: (names, widths) in one choice.
pub fn exhaustive_suite(name: &str, about: &str, make: MakeOp, list: Vec<(&'static str, usize)>) -> Suite {
    suite(name, about, move |ch| {
        let (o, n) = ch.pick(&list);
        let op = make(o, n);
        let k = ch.choose(chunks(&op));
        exhaustive(ch, &op, k)
    })
}

fn real_small(name: &str, about: &str, make: MakeOp, list: Vec<(&'static str, usize)>) -> Suite {
    suite(name, about, move |ch| {
        let (o, n) = ch.pick(&list);
        let op = make(o, n);
        let all = all_operands(&op);
        let parts = (all.len() + 255) / 256;
        let k = ch.choose(parts);
        ch.state(&(o, n, k));
        ch.add_states(0);
        real(ch, &op, &all[k * 256..(k * 256 + 256).min(all.len())])?;
        ch.say(|| format!("{}: assignments {} to {} on the implementation's evaluator", op.name, k * 256, (k * 256 + 255).min(all.len() - 1)));
        Ok(())
    })
}

fn symbolic_suite(name: &str, about: &str, make: MakeOp, list: Vec<(&'static str, usize)>) -> Suite {
    suite(name, about, move |ch| {
        let (o, n) = ch.pick(&list);
        ch.state(&(o, n));
        symbolic(ch, &make(o, n), 8_000_000)
    })
}

/// Edge values of every operand, on the implementation's evaluator.
fn real_edges(name: &str, about: &str, make: MakeOp, list: Vec<(&'static str, usize, usize)>) -> Suite {
    suite(name, about, move |ch| {
        let (o, n, most) = ch.pick(&list);
        let op = make(o, n);
        let e: Vec<Vec<BigUint>> = op.ws.iter().map(|w| edges(*w)).collect();
        let first = ch.choose(e[0].len().min(most));
        let mut l = e.clone();
        l[0] = vec![e[0][first].clone()];
        for x in l.iter_mut().skip(1) {
            x.truncate(most);
        }
        ch.state(&(o, n, first));
        ch.say(|| format!("{} on edge values", op.name));
        real(ch, &op, &product(&l))
    })
}

fn pairs(names: &[&'static str], widths: &[usize]) -> Vec<(&'static str, usize)> {
    widths.iter().flat_map(|w| names.iter().map(move |n| (*n, *w))).collect()
}

fn triples(names: &[&'static str], widths: &[usize], most: usize) -> Vec<(&'static str, usize, usize)> {
    pairs(names, widths).into_iter().map(|(a, b)| (a, b, most)).collect()
}

/// Edge values with up to one bit flipped in every operand, and all pairs of runs, through the netlist.
pub fn deviations(ch: &mut Ch, op: &Op, step: usize) -> R {
    let e: Vec<Vec<BigUint>> = op.ws.iter().map(|w| edges(*w)).collect();
    let k = op.ws.len();
    if ch.flip() {
        // runs
        let r: Vec<Vec<BigUint>> = op.ws.iter().map(|w| runs(*w, step)).collect();
        let i = ch.choose(r[0].len());
        let mut l = r.clone();
        l[0] = vec![r[0][i].clone()];
        ch.say(|| format!("{}: {:#x} against all runs", op.name, l[0][0]));
        return batch(ch, op, &product(&l));
    }
    let ix: Vec<usize> = (0..k).map(|j| ch.choose(e[j].len())).collect();
    let l: Vec<Vec<BigUint>> = (0..k).map(|j| flips(&e[j][ix[j]], op.ws[j], step)).collect();
    ch.say(|| format!("{}: around {:?}", op.name, ix));
    batch(ch, op, &product(&l))
}

fn widths_to(top: usize) -> Vec<usize> {
    WIDTHS.iter().copied().filter(|w| *w <= top).collect()
}

pub fn c14(th: bool) -> Vec<Suite> {
    let ex: Vec<(&'static str, usize)> = {
        let mut v = vec![];
        for n in 1..=if th { 16 } else { 14 } {
            for o in ["add", "sub", "mul", "mul_extend"] {
                v.push((o, n));
            }
            if n <= 11 || (th && n <= 13) {
                v.extend(["add_assign", "sub_assign", "mul_assign"].map(|o| (o, n)));
            }
        }
        for n in 1..=if th { 28 } else { 24 } {
            v.push(("neg", n));
            if n <= 12 {
                v.extend(["neg_neg", "add_self", "sub_self", "mul_self", "add_assign_self"].map(|o| (o, n)));
            }
        }
        v
    };
    let small: Vec<usize> = (1..=if th { 7 } else { 5 }).collect();
    let linear: &[&'static str] = &["add", "sub", "neg", "add_assign", "sub_assign", "add_self", "sub_self", "add_assign_self", "neg_neg"];
    let muls: &[&'static str] = &["mul", "mul_assign", "mul_self", "mul_extend"];
    let mut re = triples(linear, if th { &[8, 31, 32, 33, 63, 64, 65, 127, 128, 129] } else { &[8, 32, 64, 65] }, 13);
    re.extend(triples(&["raw_add", "raw_sub"], &[128, 255, 256, 257, 512], 13));
    if th {
        re.extend(triples(&["combo"], &[256], 3));
    }
    re.extend(triples(muls, &[8, 9], 13));
    re.extend(triples(muls, &[16, 32, 33], if th { 13 } else { 6 }));
    re.extend(triples(muls, &[64], if th { 10 } else { 4 }));
    if th {
        re.extend(triples(muls, &[128], 4));
    }
    let mul_dev: Vec<(&'static str, usize, usize)> = if th {
        [12usize, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65].iter().flat_map(|n| [("mul", *n, 1), ("mul_extend", *n, 1), ("mul_assign", *n, 1)]).chain([("mul", 127, 2), ("mul", 128, 2), ("mul", 129, 2), ("mul", 256, 16), ("mul_extend", 128, 4), ("mul_self", 64, 1), ("mul_self", 128, 1)]).collect()
    } else {
        vec![("mul", 12, 1), ("mul", 16, 1), ("mul", 24, 1), ("mul", 31, 1), ("mul", 32, 1), ("mul", 33, 1), ("mul", 63, 1), ("mul", 64, 1), ("mul", 65, 1), ("mul", 128, 8), ("mul_extend", 16, 1), ("mul_extend", 32, 1), ("mul_extend", 33, 1), ("mul_extend", 64, 2), ("mul_extend", 65, 4), ("mul_assign", 32, 1), ("mul_assign", 64, 4), ("mul_self", 64, 1)]
    };
    let fixed: Vec<(&'static str, usize)> = if th {
        [12usize, 13, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 256].iter().flat_map(|n| [("mul", *n), ("mul_assign", *n), ("mul_extend", *n)]).filter(|x| x.0 == "mul" || x.1 <= 128).collect()
    } else {
        [12usize, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128].iter().map(|n| ("mul", *n)).chain([("mul_assign", 32), ("mul_assign", 64), ("mul_extend", 12), ("mul_extend", 16), ("mul_extend", 32), ("mul_extend", 33), ("mul_extend", 64)]).collect()
    };
    let gates: &[(&'static str, usize)] = if th {
        &[("mul", 12), ("mul", 16), ("mul", 24), ("mul", 31), ("mul", 32), ("mul", 33), ("mul", 48), ("mul_extend", 16), ("mul_extend", 24), ("mul_extend", 32)]
    } else {
        &[("mul", 12), ("mul", 16), ("mul", 24), ("mul", 32), ("mul", 33), ("mul_extend", 16), ("mul_extend", 32)]
    };
    vec![
        exhaustive_suite("all values", "all operand values at widths 1-14 (thorough 16; negation 24, 28; same value as both operands and assignments 11-13) through the netlist the circuit's queries denote; oracle: machine arithmetic modulo 2^N", int_op, ex),
        real_small("evaluator", "all operand values at widths 1-5 (7) on the implementation's own evaluator, which the netlist replays", int_op, pairs(INT_ARITH, &small)),
        symbolic_suite("symbolic linear", "addition, subtraction, negation and their assignment and same-operand forms at every width up to 36 and 13 more up to 66, all three and the comparisons in one circuit at 5 (13) widths from 127 to 256 (258), and the adder and subtractor modules themselves at every width up to 300 (600) and 5 more up to 1024: all operand values at once, by comparing BDDs of the netlist with those of a ripple adder; multiplication the same way up to width 8 (10)", int_op, {
            let mut v = pairs(linear, &widths_to(66));
            v.extend(pairs(&["raw_add", "raw_sub"], &(67..=if th { 600 } else { 300 }).collect::<Vec<_>>()));
            v.extend(pairs(&["raw_add", "raw_sub"], &[511, 512, 513, 1000, 1024]));
            v.extend(pairs(&["combo"], if th { &[96, 100, 127, 128, 129, 130, 160, 192, 200, 255, 256, 257, 258] } else { &[127, 128, 129, 130, 256] }));
            v.extend(pairs(muls, &widths_to(if th { 10 } else { 8 })));
            v
        }),
        real_edges("evaluator at edges", "pairs of up to 13 characteristic values at widths up to 512 on the implementation's evaluator", int_op, re),
        suite("products", "multiplication at widths 12 to 128 (256): all pairs of 13 characteristic values with up to one bit of each flipped (every bit or every few), all pairs of 2^i, 2^i-1, 2^i+1 and negatives", move |ch| {
            let (o, n, step) = ch.pick(&mul_dev);
            deviations(ch, &int_op(o, n), step)
        }),
        suite("one operand fixed", "multiplication (in place, too) and the double-width product at 14 widths from 12 to 128 (20 to 256), one operand, on either side, every constant up to 130 (520) and every power of two (every fourth above 65 bits): all values of the other operand at once by BDDs", move |ch| {
            let (o, n) = ch.pick(&fixed);
            let mut cs: Vec<BigUint> = (0..=if th { 520u32 } else { 130 }).map(BigUint::from).collect();
            cs.extend((8..n).filter(|i| n <= 65 || i % 4 == 0 || i + 2 > n).map(pow2));
            let c = ch.pick(&cs);
            let f = ch.choose(2);
            ch.state(&(o, n, f, &c));
            symbolic_fixed(ch, &int_op(o, n), f, &c, if th { 16_000_000 } else { 4_000_000 })
        }),
        suite("gate values", "every gate of multiplication and the double-width product at 7 (10) widths up to 33 (48) driven to every pair of values its operands can take: by characteristic values, and where those do not reach a pair by the BDD (up to 20000 (60000) nodes) of the condition", move |ch| {
            let (o, n) = ch.pick(gates);
            ch.state(&(o, n));
            let l: Vec<BigUint> = [edges(n), runs(n, 1 + n / 17)].concat();
            gate_values(ch, &int_op(o, n), &product(&[l.clone(), l]), if th { 60_000 } else { 20_000 }, if th { 16 } else { 4 })
        }),
        super::wirings::arith(th),
        super::scopes::of(th, super::scopes::ARITH),
    ]
}

pub fn c15(th: bool) -> Vec<Suite> {
    let ex: Vec<(&'static str, usize)> = (1..=if th { 16 } else { 13 }).map(|n| ("all_cmp", n)).collect();
    let small: Vec<usize> = (1..=if th { 7 } else { 5 }).collect();
    vec![
        exhaustive_suite("all values", "all operand pairs at widths 1-13 (16), all six comparisons", int_op, ex),
        real_small("evaluator", "all operand pairs at widths 1-5 (7), each comparison by itself and all six in one circuit, on the implementation's evaluator", int_op, {
            let mut v = pairs(INT_CMP, &small);
            v.extend(pairs(&["all_cmp"], &small));
            v
        }),
        symbolic_suite("symbolic", "each comparison at every width up to 36 and 13 more up to 66, all in one circuit at 5 (13) widths from 127 to 256 (258), and the comparison modules themselves at every width up to 300 (600) and 5 more up to 1024: all operand pairs at once by BDDs", int_op, {
            let mut v = pairs(INT_CMP, &widths_to(66));
            v.extend(pairs(&RAW[2..], &(67..=if th { 600 } else { 300 }).collect::<Vec<_>>()));
            v.extend(pairs(&RAW[2..], &[511, 512, 513, 1000, 1024]));
            v.extend(pairs(&["combo"], if th { &[96, 100, 127, 128, 129, 130, 160, 192, 200, 255, 256, 257, 258] } else { &[127, 128, 129, 130, 256] }));
            v
        }),
        real_edges("evaluator at edges", "all pairs of 13 characteristic values at widths up to 512 on the implementation's evaluator", int_op, {
            let mut v = triples(&["all_cmp"], if th { &[8, 31, 32, 33, 63, 64, 65, 127, 128, 129] } else { &[8, 32, 63, 64, 65] }, 13);
            v.extend(triples(&RAW[2..], &[128, 255, 256, 257, 512], 13));
            v
        }),
        super::wirings::compare(th),
        super::scopes::of(th, super::scopes::COMPARE),
    ]
}

fn then_apply(x: BigUint, t: Then, n: usize) -> BigUint {
    let m = pow2(n);
    match t {
        Then::Out => x,
        Then::PlusSelf => (&x + &x) % m,
        Then::MinusOne => (&m + x - 1u32) % m,
        Then::Left(k) => shl(&x, k, n),
        Then::Right(k) => sar(&x, k, n),
    }
}

fn shl(x: &BigUint, k: usize, n: usize) -> BigUint {
    if k >= n {
        BigUint::from(0u32)
    } else {
        (x << k) % pow2(n)
    }
}

fn sar(x: &BigUint, k: usize, n: usize) -> BigUint {
    let k = k.min(n);
    let s = x.bit(n as u64 - 1);
    let mut r = x >> k;
    if s {
        r |= (pow2(k) - 1u32) << (n - k);
    }
    r
}

fn shift_op(list: Vec<(bool, usize)>, t: Then, n: usize) -> Op {
    let name = if list.len() == 1 {
        let (left, k) = list[0];
        format!("shift_{} by {} then {:?} of width {}", if left { "left" } else { "right" }, k, t, n)
    } else {
        format!("{} shifts from {:?} to {:?} then {:?} of width {}", list.len(), list[0], list.last().unwrap(), t, n)
    };
    let (l1, l2) = (list.clone(), list.clone());
    Op {
        name,
        ws: vec![n],
        n_out: n * list.len(),
        build: Arc::new(move || shift_circ(&list, t, n)),
        small: None,
        big: Some(Arc::new(move |o| {
            let b: Vec<bool> = l1.iter().flat_map(|(left, k)| big_bits(&then_apply(if *left { shl(&o[0], *k, n) } else { sar(&o[0], *k, n) }, t, n), n)).collect();
            Some(bits_big(&b))
        })),
        sym: Some(Arc::new(move |_, o| {
            let x = &o[0];
            let sh = |x: &[u32], left: bool, k: usize| -> Vec<u32> {
                (0..n)
                    .map(|i| {
                        if left {
                            if i >= k {
                                x[i - k]
                            } else {
                                0
                            }
                        } else {
                            match i.checked_add(k) {
                                Some(j) if j < n => x[j],
                                _ => x[n - 1],
                            }
                        }
                    })
                    .collect()
            };
            let mut all = vec![];
            for (left, k) in &l2 {
                let mut r = sh(x, *left, *k);
                match t {
                    Then::Left(k) => r = sh(&r, true, k),
                    Then::Right(k) => r = sh(&r, false, k),
                    Then::PlusSelf => r = sh(&r, true, 1),
                    Then::Out => {}
                    Then::MinusOne => panic!("no symbolic oracle"),
                }
                all.extend(r);
            }
            Ok((all, 1))
        })),
        known: None,
    }
}

fn const_op(srcs: Vec<Src>, t: Then, plus: bool, n: usize) -> Op {
    let vs: Vec<BigUint> = srcs
        .iter()
        .map(|s| match s {
            Src::Value(v) => v.clone(),
            Src::Zero => BigUint::from(0u32),
            Src::One => BigUint::from(1u32),
        })
        .collect();
    Op {
        name: format!("constants {} then {:?}{} of width {}", clip(&format!("{:?}", srcs)), t, if plus { " plus an input" } else { "" }, n),
        ws: if plus { vec![n; srcs.len()] } else { vec![] },
        n_out: n * srcs.len(),
        build: Arc::new(move || const_circ(&srcs, t, plus, n)),
        small: None,
        big: Some(Arc::new(move |o| {
            let b: Vec<bool> = vs
                .iter()
                .enumerate()
                .flat_map(|(i, v)| {
                    let x = if plus { (v + &o[i]) % pow2(n) } else { v.clone() };
                    big_bits(&then_apply(x, t, n), n)
                })
                .collect();
            Some(bits_big(&b))
        })),
        sym: None,
        known: None,
    }
}

fn pad_op(ks: Vec<usize>, t: Then, n: usize) -> Op {
    let k2 = ks.clone();
    Op {
        name: format!("integers from {:?} gates then {:?} of width {}", ks, t, n),
        ws: vec![ks.iter().max().copied().unwrap_or(0)],
        n_out: n * ks.len(),
        build: Arc::new(move || pad_circ(&ks, t, n)),
        small: None,
        big: Some(Arc::new(move |o| {
            let b: Vec<bool> = k2.iter().flat_map(|k| big_bits(&then_apply(&o[0] % pow2(*k), t, n), n)).collect();
            Some(bits_big(&b))
        })),
        sym: None,
        known: None,
    }
}

fn few(op: &Op, most: usize) -> Vec<Vec<BigUint>> {
    if op.n_in() <= 5 {
        return all_operands(op);
    }
    let l: Vec<Vec<BigUint>> = op.ws.iter().map(|w| edges(*w).into_iter().take(most).collect()).collect();
    product(&l)
}

pub fn c16(th: bool) -> Vec<Suite> {
    // a configuration of 256 bits takes 0.6 GB, so these come last and few
    let wide: &[usize] = if th { &[127, 128, 129, 130, 200, 255, 256, 257] } else { &[127, 128, 129, 256] };
    let all_thens = |n: usize| vec![Then::Out, Then::PlusSelf, Then::MinusOne, Then::Left(1), Then::Right(1), Then::Left(n), Then::Right(n - 1)];
    let consts = move |ch: &mut Ch| {
        let n = ch.range(1, if th { 10 } else { 8 });
        let x = ch.choose(1 << n);
        let t = ch.pick(&all_thens(n));
        let src = Src::Value(BigUint::from(x as u32));
        let plus = n <= 4 && ch.flip();
        ch.state(&(n, x, t, plus));
        let op = const_op(vec![src], t, plus, n);
        ch.say(|| op.name.clone());
        real(ch, &op, &if plus { all_operands(&op) } else { vec![vec![]] })
    };
    let wide_consts = move |ch: &mut Ch| {
        let mut ns = widths_to(66);
        ns.extend(wide);
        let n = ch.pick(&ns);
        let mut l: Vec<Src> = vec![Src::Zero, Src::One];
        let mut vs = edges(n);
        vs.extend(runs(n, if n > 66 { 8 } else if th { 1 } else { 4 }));
        l.extend(vs.into_iter().map(Src::Value));
        let per = if n > 66 { 1000 } else { 24 };
        let k = ch.choose((l.len() + per - 1) / per);
        let t = if n <= 66 { ch.pick(&[Then::Out, Then::PlusSelf]) } else { Then::Out };
        ch.state(&(n, k, t));
        let srcs = l[k * per..(k * per + per).min(l.len())].to_vec();
        let op = const_op(srcs, t, false, n);
        ch.say(|| op.name.clone());
        real(ch, &op, &[vec![]])
    };
    let pads = move |ch: &mut Ch| {
        let mut ns = widths_to(66);
        ns.extend(wide);
        let n = ch.pick(&ns);
        let ks: Vec<usize> = if n <= 12 { vec![ch.range(0, n)] } else if n <= 66 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
        let t = if n <= 66 { ch.pick(&[Then::Out, Then::MinusOne, Then::Right(1)]) } else { Then::MinusOne };
        let op = pad_op(ks.clone(), t, n);
        ch.state(&(n, ks, t));
        ch.say(|| op.name.clone());
        let vecs = if op.n_in() == 0 { vec![vec![BigUint::from(0u32)]] } else { few(&op, if n <= 66 { 13 } else { 4 }) };
        real(ch, &op, &vecs)
    };
    let amounts = |n: usize| {
        let mut v: Vec<usize> = (0..=n + 2).collect();
        for k in [2 * n - 1, 2 * n, 2 * n + 1, 63, 64, 65, 128, 1 << 16, (1 << 32) + 1, usize::MAX - 1, usize::MAX] {
            if !v.contains(&k) {
                v.push(k);
            }
        }
        v
    };
    let shifts = move |ch: &mut Ch| {
        let mut ns = widths_to(66);
        ns.extend(wide);
        let n = ch.pick(&ns);
        let both = |left: bool| amounts(n).into_iter().map(|k| (left, k)).collect::<Vec<_>>();
        let list = if n <= 16 {
            let l = ch.flip();
            vec![ch.pick(&both(l))]
        } else if n <= 66 {
            both(ch.flip())
        } else {
            [both(true), both(false)].concat()
        };
        let t = ch.pick(if n <= 16 {
            &[Then::Out, Then::PlusSelf, Then::Left(2), Then::Right(2)][..]
        } else if n <= 66 {
            &[Then::Out, Then::PlusSelf][..]
        } else {
            &[Then::Out][..]
        });
        ch.state(&(n, &list, t));
        let op = shift_op(list, t, n);
        symbolic(ch, &op, 1_000_000)?;
        real(ch, &op, &few(&op, if n <= 66 { 13 } else { 4 }))
    };
    let twice = move |ch: &mut Ch| {
        let n = ch.range(1, if th { 7 } else { 5 });
        let left = ch.flip();
        let k = ch.pick(&amounts(n));
        let k2 = ch.pick(&amounts(n));
        let t = if ch.flip() { Then::Left(k2) } else { Then::Right(k2) };
        ch.state(&(n, left, k, t));
        let op = shift_op(vec![(left, k)], t, n);
        ch.say(|| op.name.clone());
        real(ch, &op, &all_operands(&op))
    };
    vec![
        suite("constants", "every value at widths 1-8 (10), alone, in further operations and added to an input (widths 1-4, all inputs), on the implementation's evaluator", consts),
        suite("wide constants", "characteristic values, 2^i, 2^i-1, 2^i+1 and negatives, zero and one, at 49 widths up to 66 and 4 (8) from 127 to 256 (257)", wide_consts),
        suite("padding", "integers made from every number of gates up to the width, at the same widths, then used", pads),
        suite("shifts", "both shifts by every amount up to the width plus 2 and by large amounts up to the largest machine word, at the same widths, result used further: all inputs by BDDs, edge inputs on the evaluator", shifts),
        suite("two shifts", "all pairs of shifts at widths 1-5 (7), all inputs, on the evaluator", twice),
        super::wirings::shift(th),
        super::scopes::of(th, super::scopes::CONSTS),
    ]
}

pub fn c17(th: bool) -> Vec<Suite> {
    let mut ex = pairs(BITS_OPS, &(1..=if th { 11 } else { 9 }).collect::<Vec<_>>());
    ex.extend(pairs(&["not", "not"], &[12, 16]));
    let small: Vec<usize> = (1..=if th { 6 } else { 5 }).collect();
    let pads = move |ch: &mut Ch| {
        let n = ch.pick(&widths_to(if th { 258 } else { 66 }));
        let k = ch.range(0, n);
        let twice = ch.flip();
        ch.state(&(n, k, twice));
        let op = Op {
            name: format!("{} bits from {} gates{}", n, k, if twice { " inverted twice" } else { "" }),
            build: Arc::new(move || pad_bits_circ(k, twice, n)),
            ws: vec![k],
            n_out: n,
            small: None,
            big: Some(Arc::new(move |o| Some(o[0].clone()))),
            sym: None,
            known: None,
        };
        ch.say(|| op.name.clone());
        let vecs = if k == 0 { vec![vec![BigUint::from(0u32)]] } else { few(&op, 13) };
        real(ch, &op, &vecs)
    };
    vec![
        exhaustive_suite("all values", "all operand values at widths 1-9 (11), every operation, assignment and same-operand form", bits_op, ex),
        real_small("evaluator", "all operand values at widths 1-5 (6) on the implementation's evaluator", bits_op, pairs(BITS_OPS, &small)),
        symbolic_suite("symbolic", "every operation at 68 widths up to 514: all operand values at once by BDDs", bits_op, pairs(BITS_OPS, &widths_to(514))),
        real_edges("evaluator at edges", "all pairs of characteristic values at widths up to 257 on the implementation's evaluator", bits_op, triples(BITS_OPS, if th { &[8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] } else { &[8, 32, 64, 65, 128, 256] }, if th { 13 } else { 8 })),
        suite("padding", "bit vectors from every number of gates up to the width, at widths up to 66 (258)", pads),
        super::wirings::bitvec(th),
        super::scopes::of(th, super::scopes::VECS),
    ]
}
