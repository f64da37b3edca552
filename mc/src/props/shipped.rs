//! C20, C21: the shipped circuits.

use super::arith::*;
use super::builders::*;
use crate::bdd::{Bdd, Cap};
use crate::comb::*;
use crate::explore::*;
use crate::refs;
use circuit_converters::num_bigint::BigUint;
use std::sync::Arc;

fn mult64(a: u64, b: u64) -> u128 {
    let p = a as u128 * b as u128;
    p >> 64 | p << 64
}

pub fn word_op(name: &'static str) -> Op {
    let arity = if name == "neg64" { 1 } else { 2 };
    let n_out = if name == "mult2_64" { 128 } else { 64 };
    let sym = move |b: &mut Bdd, o: &[Vec<u32>]| -> Result<(Vec<u32>, u32), Cap> {
        Ok((
            match name {
                "adder64" => sym_add(b, &o[0], &o[1], 0)?,
                "sub64" => {
                    let n = sym_not(b, &o[1])?;
                    sym_add(b, &o[0], &n, 1)?
                }
                "neg64" => {
                    let n = sym_not(b, &o[0])?;
                    sym_add(b, &n, &[0; 64], 1)?
                }
                _ => panic!("no symbolic oracle for {}", name),
            },
            1,
        ))
    };
    Op {
        name: format!("shipped {}", name),
        build: Arc::new(move || shipped(name)),
        ws: vec![64; arity],
        n_out,
        small: Some(Arc::new(move |o| {
            let a = o[0];
            Some(match name {
                "adder64" => a.wrapping_add(o[1]) as u128,
                "sub64" => a.wrapping_sub(o[1]) as u128,
                "neg64" => a.wrapping_neg() as u128,
                "mult2_64" => mult64(a, o[1]),
                "divide_unsigned_64" => a.checked_div(o[1])? as u128,
                "divide_signed_64" if o[1] == 0 => return None,
                "divide_signed_64" => (a as i64).wrapping_div(o[1] as i64) as u64 as u128,
                _ => panic!("no word circuit {}", name),
            })
        })),
        big: None,
        sym: Some(Arc::new(sym)),
        known: None,
    }
}

const HARD: &[&str] = &["mult2_64", "divide_unsigned_64", "divide_signed_64"];

/// x * c, 128 bits, high word first
fn sym_mul_const(b: &mut Bdd, x: &[u32], c: u64) -> Result<Vec<u32>, Cap> {
    let mut acc = vec![0u32; 128];
    for i in (0..64).rev() {
        if c >> i & 1 == 1 {
            let mut t = vec![0u32; 128];
            t[i..i + 64].copy_from_slice(x);
            acc = sym_add(b, &acc, &t, 0)?;
        }
    }
    acc.rotate_left(64);
    Ok(acc)
}

/// x / c by long division
fn sym_div_const(b: &mut Bdd, x: &[u32], c: u64) -> Result<Vec<u32>, Cap> {
    let k: Vec<u32> = (0..65).map(|i| if i < 64 { (c >> i & 1) as u32 } else { 0 }).collect();
    let nk = sym_not(b, &k)?;
    let mut rem = vec![0u32; 65];
    let mut q = vec![0u32; 64];
    for i in (0..64).rev() {
        rem.rotate_right(1);
        rem[0] = x[i];
        let lt = sym_ult(b, &rem, &k)?;
        q[i] = b.not(lt)?;
        let d = sym_add(b, &rem, &nk, 1)?;
        for j in 0..65 {
            // lt ? rem : d
            let a = b.and(lt, rem[j])?;
            let e = b.and(q[i], d[j])?;
            rem[j] = b.or(a, e)?;
        }
    }
    Ok(q)
}

fn sym_sdiv_const(b: &mut Bdd, x: &[u32], c: i64) -> Result<Vec<u32>, Cap> {
    let zero = [0u32; 64];
    let neg = |b: &mut Bdd, v: &[u32]| -> Result<Vec<u32>, Cap> {
        let n = sym_not(b, v)?;
        sym_add(b, &n, &zero, 1)
    };
    let mux = |b: &mut Bdd, s: u32, l: &[u32], h: &[u32]| -> Result<Vec<u32>, Cap> {
        let ns = b.not(s)?;
        l.iter()
            .zip(h)
            .map(|(l, h)| {
                let p = b.and(ns, *l)?;
                let q = b.and(s, *h)?;
                b.or(p, q)
            })
            .collect()
    };
    let sx = x[63];
    let nx = neg(b, x)?;
    let ax = mux(b, sx, x, &nx)?;
    let q = sym_div_const(b, &ax, c.unsigned_abs())?;
    let nq = neg(b, &q)?;
    let s = if c < 0 { b.not(sx)? } else { sx };
    mux(b, s, &q, &nq)
}

/// c / y for a small c and y not 0
fn sym_const_div(b: &mut Bdd, c: u64, y: &[u32]) -> Result<Vec<u32>, Cap> {
    let mut q = vec![0u32; 64];
    for t in 1..=c {
        // the quotient is t: c/(t+1) < y <= c/t
        let k = |v: u64| -> Vec<u32> { (0..64).map(|i| (v >> i & 1) as u32).collect() };
        let lo = sym_ult(b, &k(c / (t + 1)), y)?;
        let hi = sym_ult(b, y, &k(c / t + 1))?;
        let is = b.and(lo, hi)?;
        for (j, q) in q.iter_mut().enumerate() {
            if t >> j & 1 == 1 {
                *q = b.or(*q, is)?;
            }
        }
    }
    Ok(q)
}

fn sym_const_sdiv(b: &mut Bdd, c: i64, y: &[u32]) -> Result<Vec<u32>, Cap> {
    let ny = sym_not(b, y)?;
    let ny = sym_add(b, &ny, &[0; 64], 1)?;
    let sy = y[63];
    let nsy = b.not(sy)?;
    let mut ay = vec![];
    for (l, h) in y.iter().zip(&ny) {
        let p = b.and(nsy, *l)?;
        let q = b.and(sy, *h)?;
        ay.push(b.or(p, q)?);
    }
    let q = sym_const_div(b, c.unsigned_abs(), &ay)?;
    let nq = sym_not(b, &q)?;
    let nq = sym_add(b, &nq, &[0; 64], 1)?;
    let s = if c < 0 { nsy } else { sy };
    let ns = b.not(s)?;
    let mut r = vec![];
    for (l, h) in q.iter().zip(&nq) {
        let p = b.and(ns, *l)?;
        let x = b.and(s, *h)?;
        r.push(b.or(p, x)?);
    }
    Ok(r)
}

/// All values of one operand at once, the other one fixed.
fn one_fixed(ch: &mut Ch, op: &Op, name: &str, fixed: usize, c: u64, cap: usize) -> R {
    let net = net_of(op)?;
    let mut b = Bdd::new(cap);
    let mut run = || -> Result<Option<Vec<(u32, bool)>>, Cap> {
        let x = (0..64).map(|i| b.var(63 - i)).collect::<Result<Vec<_>, _>>()?;
        let k: Vec<u32> = (0..64).map(|i| (c >> i & 1) as u32).collect();
        let flat = if fixed == 0 { [&k[..], &x[..]].concat() } else { [&x[..], &k[..]].concat() };
        let got = net.bdds(&mut b, &flat)?;
        let want = match name {
            "mult2_64" => sym_mul_const(&mut b, &x, c)?,
            "divide_unsigned_64" if fixed == 0 => sym_const_div(&mut b, c, &x)?,
            "divide_signed_64" if fixed == 0 => sym_const_sdiv(&mut b, c as i64, &x)?,
            "divide_unsigned_64" => sym_div_const(&mut b, &x, c)?,
            _ => sym_sdiv_const(&mut b, &x, c as i64)?,
        };
        // a zero divisor is outside the property
        let mut pre = 1;
        if fixed == 0 && name != "mult2_64" {
            pre = sym_eq(&mut b, &x, &[0; 64])?;
            pre = b.not(pre)?;
        }
        for (g, w) in got.iter().zip(&want) {
            let d = b.xor(*g, *w)?;
            let d = b.and(d, pre)?;
            if d != 0 {
                return Ok(Some(b.sat(d)));
            }
        }
        Ok(None)
    };
    match run() {
        Err(Cap) => {
            ch.say(|| format!("over the cap: {} {} {:#x}", name, fixed, c));
            ch.count("bdd_over_cap", 1);
            let l = words(1);
            return batch64(ch, op, l.iter().map(|x| if fixed == 0 { vec![c, *x] } else { vec![*x, c] }));
        }
        Ok(None) => {}
        Ok(Some(a)) => {
            let x = a.iter().filter(|(_, x)| *x).fold(0u64, |s, (v, _)| s | 1 << (63 - v));
            let o = if fixed == 0 { vec![c, x] } else { vec![x, c] };
            batch64(ch, op, [o].into_iter())?;
            std::panic::panic_any(EngineError(format!("the BDDs of {} and its oracle differ without a witness", op.name)));
        }
    }
    ch.count("bdd_nodes", b.size() as u64);
    ch.add_states(b.size() as u64);
    ch.say(|| format!("{} with operand {} = {:#x} and all 2^64 values of the other: {} BDD nodes", op.name, fixed, c, b.size()));
    Ok(())
}

/// 2^i, its neighbours, their negatives, and the characteristic patterns
fn words(step: usize) -> Vec<u64> {
    let mut v: Vec<u64> = edges(64).iter().chain(&runs(64, step)).map(low64).collect();
    v.sort();
    v.dedup();
    v
}

fn window(v: u64, at: usize, bits: usize, fill: u64) -> u64 {
    let m = ((1u64 << bits) - 1) << at;
    (fill & !m) | (v << at & m)
}

const FILLS: [u64; 4] = [0, !0, 0x5555_5555_5555_5555, 0x0123_4567_89ab_cdef];

pub fn c20(th: bool) -> Vec<Suite> {
    // constants for which the circuits' functions of the other operand stay small
    let mut fixed: Vec<(&'static str, usize, u64)> = vec![];
    for c in 0..=if th { 160u64 } else { 33 } {
        fixed.push(("mult2_64", 1, c));
        fixed.push(("mult2_64", 0, c));
        if c > 0 {
            fixed.push(("divide_unsigned_64", 1, c));
            fixed.push(("divide_unsigned_64", 0, c));
            fixed.push(("divide_signed_64", 0, c));
            fixed.push(("divide_signed_64", 0, c.wrapping_neg()));
            if c <= if th { 64 } else { 24 } {
                fixed.push(("divide_signed_64", 1, c));
                fixed.push(("divide_signed_64", 1, c.wrapping_neg()));
            }
        }
    }
    for i in 6..64u32 {
        let p = 1u64 << i;
        fixed.push(("mult2_64", 1, p));
        fixed.push(("mult2_64", 0, p));
        fixed.push(("divide_unsigned_64", 1, p));
        fixed.push(("divide_signed_64", 1, p));
        fixed.push(("divide_signed_64", 1, p.wrapping_neg()));
    }
    for i in 0..=if th { 48u64 } else { 12 } {
        for top in [u64::MAX, 1 << 63, 3 << 62, 5 << 61, 9 << 60] {
            fixed.push(("divide_unsigned_64", 1, top - i));
        }
        for top in [(1u64 << 63) - 1, 1 << 62, 3 << 61, (1u64 << 63) + 50, 5 << 61] {
            fixed.push(("divide_signed_64", 1, top - i));
        }
    }
    let win = if th { 7 } else { 4 };
    let step = 1;
    vec![
        suite("symbolic", "addition, subtraction and negation: all operands at once, by comparing BDDs with a ripple adder's", |ch| {
            let o = ch.pick(&["adder64", "sub64", "neg64"]);
            ch.state(&o);
            symbolic(ch, &word_op(o), 8_000_000)
        }),
        suite("one operand fixed", "multiplication by every constant from 0 to 33 (160) and every power of two, on either side; unsigned division by and of every constant from 1 to 33 (160), signed division by 1 to 24 (64) and of 1 to 33 (160) and their negatives, division by every power of two (signed: and its negative), and 13 (49) divisors each near 2^64, 2^63, 3*2^62, 5*2^61 and 9*2^60 (and 2^63, 2^62, 3*2^61, -2^63, 5*2^61 signed): all 2^64 values of the other operand at once by BDDs; oracle: shift-and-add and long division on BDDs", move |ch| {
            let (o, f, c) = ch.pick(&fixed);
            ch.state(&(o, f, c));
            one_fixed(ch, &word_op(o), o, f, c, if th { 16_000_000 } else { 6_000_000 })
        }),
        suite("windows", "multiplication and both divisions: all values of 4 (7) adjacent bits of one operand and of the other, every pair of positions, 4 fillings of the remaining bits of each", move |ch| {
            let o = ch.pick(HARD);
            let i = step * ch.choose((65 - win + step - 1) / step);
            let fa = ch.pick(&FILLS);
            let op = word_op(o);
            let k = 1u64 << win;
            let it = (0..65 - win).step_by(step).flat_map(move |j| FILLS.into_iter().flat_map(move |fb| (0..k * k).map(move |x| vec![window(x % k, i, win, fa), window(x / k, j, win, fb)])));
            ch.say(|| format!("{}: window at bit {} over {:#x}", op.name, i, fa));
            batch64(ch, &op, it)
        }),
        suite("characteristic words", "multiplication, division, addition, subtraction and negation: all pairs of 2^i, 2^i-1, 2^i+1, their negatives and 13 patterns, the second operand with every single bit flipped too", move |ch| {
            let o = ch.pick(&["mult2_64", "divide_unsigned_64", "divide_signed_64", "adder64", "sub64"]);
            let op = word_op(o);
            let l = words(1);
            let i = ch.choose(l.len());
            let a = l[i];
            ch.say(|| format!("{}: {:#x} with all characteristic words", op.name, a));
            batch64(ch, &op, l.iter().map(|b| vec![a, *b]))?;
            batch64(ch, &op, l.iter().flat_map(|b| (0..64).map(move |k| vec![a, b ^ 1 << k])))
        }),
        suite("gate values", "every gate of multiplication and both divisions driven to every pair of values its operands can take: by the characteristic words, and where those do not reach a pair by the BDD (up to 20000 (300000) nodes) of the condition", move |ch| {
            let o = ch.pick(HARD);
            let op = word_op(o);
            let l: Vec<BigUint> = words(1).into_iter().map(BigUint::from).collect();
            ch.state(&o);
            gate_values(ch, &op, &product(&[l.clone(), l]), if th { 300_000 } else { 20_000 }, 8)
        }),
        suite("exact quotients", "both divisions: dividends q*d-1, q*d, q*d+1, q*d+d/2, q*d+d-1 for all pairs of characteristic words q and d with a product below 2^64 (signed: all four signs)", move |ch| {
            let o = ch.pick(&["divide_unsigned_64", "divide_signed_64"]);
            let op = word_op(o);
            let l = words(1);
            let d = ch.pick(&l);
            if d == 0 {
                return Ok(());
            }
            let signed = o == "divide_signed_64";
            let mut v = vec![];
            for q in &l {
                if let Some(p) = q.checked_mul(d) {
                    for x in [p.wrapping_sub(1), p, p.wrapping_add(1), p.wrapping_add(d / 2), p.wrapping_add(d - 1)] {
                        v.push(vec![x, d]);
                        if signed {
                            v.push(vec![x.wrapping_neg(), d]);
                            v.push(vec![x, d.wrapping_neg()]);
                            v.push(vec![x.wrapping_neg(), d.wrapping_neg()]);
                        }
                    }
                }
            }
            ch.say(|| format!("{} by {:#x}: {} dividends", op.name, d, v.len()));
            batch64(ch, &op, v.into_iter())
        }),
        suite("dense", "both divisions: every dividend below 2^11 (2^14) by every divisor below 2^11 (2^14), the negatives of both too when signed; products of the same", move |ch| {
            let o = ch.pick(HARD);
            let op = word_op(o);
            let b = if th { 14 } else { 11 };
            let d = ch.choose(1 << b) as u64;
            let signed = o == "divide_signed_64";
            ch.say(|| format!("{}: {} as second operand", op.name, d));
            batch64(ch, &op, (0..1u64 << b).flat_map(|a| {
                let n = u64::wrapping_neg;
                if signed { vec![vec![a, d], vec![n(a), d], vec![a, n(d)], vec![n(a), n(d)]] } else { vec![vec![a, d]] }
            }))
        }),
        suite("evaluator", "pairs of 13 characteristic words and 8 more on the implementation's evaluator, which the netlist replays", move |ch| {
            let o = ch.pick(&["adder64", "sub64", "neg64", "mult2_64", "divide_unsigned_64", "divide_signed_64"]);
            let op = word_op(o);
            let mut e = edges(64);
            e.extend([2u64, 3, 7, 10, 255, 65536, 1 << 32, u64::MAX - 1].map(BigUint::from));
            if !th && HARD.contains(&o) {
                e = e.into_iter().step_by(2).collect();
            }
            let i = ch.choose(e.len());
            let mut l = vec![e.clone(); op.ws.len()];
            l[0] = vec![e[i].clone()];
            ch.state(&(o, i));
            ch.say(|| format!("{} on characteristic words", op.name));
            real(ch, &op, &product(&l))
        }),
    ]
}

// ---- AES ----

/// first 16 bytes plaintext, then 16 bytes key; bits most significant first per byte
fn block_of(x: &BigUint) -> [u8; 16] {
    let mut b = [0u8; 16];
    for (k, y) in x.to_bytes_le().iter().enumerate().take(16) {
        b[k] = y.reverse_bits();
    }
    b
}

fn big_of(b: &[u8; 16]) -> BigUint {
    BigUint::from_bytes_le(&b.map(|x| x.reverse_bits()))
}

pub fn aes_op() -> Op {
    Op {
        name: "shipped aes128".into(),
        build: Arc::new(|| shipped("aes128")),
        ws: vec![128, 128],
        n_out: 128,
        small: None,
        big: Some(Arc::new(|o| Some(big_of(&refs::aes128(&block_of(&o[0]), &block_of(&o[1])))))),
        sym: None,
        known: None,
    }
}

fn pair(p: &[u8; 16], k: &[u8; 16]) -> Vec<BigUint> {
    vec![big_of(p), big_of(k)]
}

fn unhex(s: &str) -> [u8; 16] {
    let mut b = [0; 16];
    for i in 0..16 {
        b[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    b
}

/// base blocks: FIPS-197 vectors and patterns
fn blocks() -> Vec<[u8; 16]> {
    let mut v = vec![
        [0; 16],
        [0xff; 16],
        unhex("00112233445566778899aabbccddeeff"),
        unhex("000102030405060708090a0b0c0d0e0f"),
        unhex("2b7e151628aed2a6abf7158809cf4f3c"),
        unhex("3243f6a8885a308d313198a2e0370734"),
        [0x52; 16],
        unhex("80808080404040402020202010101010"),
    ];
    // de Bruijn-like filling
    let mut x = 1u32;
    let mut b = [0u8; 16];
    for y in b.iter_mut() {
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        *y = (x >> 16) as u8;
    }
    v.push(b);
    v
}

fn flip_block(b: &[u8; 16], i: usize) -> [u8; 16] {
    let mut b = *b;
    b[i / 8] ^= 0x80 >> (i % 8);
    b
}

pub fn c21(th: bool) -> Vec<Suite> {
    let bs = blocks();
    let b0 = bs.clone();
    let b1 = bs.clone();
    let b2 = bs.clone();
    let b3 = bs.clone();
    let b4 = bs.clone();
    let b5 = bs.clone();
    let b6 = bs.clone();
    let pairs_of: Vec<(usize, usize)> = (0..bs.len()).flat_map(|i| (0..bs.len()).map(move |j| (i, j))).collect();
    // pairs of base blocks the heavier families start from
    let few: Vec<(usize, usize)> = pairs_of.clone();
    let (few1, few2, few3) = (few.clone(), few.clone(), few.clone());
    vec![
        suite("vectors", "the FIPS-197 vectors and every pair of 9 base blocks as plaintext and key, on the implementation's evaluator; the reference itself is compared with the published ciphertexts", move |ch| {
            let (i, j) = ch.pick(&pairs_of);
            for (p, k, c) in [
                ("00112233445566778899aabbccddeeff", "000102030405060708090a0b0c0d0e0f", "69c4e0d86a7b0430d8cdb78070b4c55a"),
                ("3243f6a8885a308d313198a2e0370734", "2b7e151628aed2a6abf7158809cf4f3c", "3925841d02dc09fbdc118597196a0b32"),
                ("00000000000000000000000000000000", "00000000000000000000000000000000", "66e94bd4ef8a2c3b884cfa59ca342b2e"),
            ] {
                if refs::aes128(&unhex(p), &unhex(k)) != unhex(c) {
                    std::panic::panic_any(EngineError("the reference AES is wrong".into()));
                }
            }
            ch.state(&(i, j));
            ch.say(|| format!("plaintext {:02x?} key {:02x?}", b0[i], b0[j]));
            real(ch, &aes_op(), &[pair(&b0[i], &b0[j])])
        }),
        suite("flipped bits on the evaluator", "every single bit of plaintext and key flipped around one (four) base pairs, on the implementation's evaluator", move |ch| {
            let (i, j) = ch.pick(if th { &[(0, 0), (2, 3), (5, 4), (8, 1)][..] } else { &[(2, 3)][..] });
            let k = ch.choose(64);
            ch.state(&(i, j, k));
            let v: Vec<_> = (4 * k..4 * k + 4).map(|x| if x < 128 { pair(&flip_block(&b1[i], x), &b1[j]) } else { pair(&b1[i], &flip_block(&b1[j], x - 128)) }).collect();
            ch.say(|| format!("bits {} to {}", 4 * k, 4 * k + 3));
            real(ch, &aes_op(), &v)
        }),
        suite("flipped bits", "up to two of the 256 input bits flipped, around all 81 pairs of base blocks", move |ch| {
            let (i, j) = ch.pick(&few1);
            let x = ch.choose(256);
            let one = |p: &[u8; 16], k: &[u8; 16], x: usize| if x < 128 { (flip_block(p, x), *k) } else { (*p, flip_block(k, x - 128)) };
            let (p, k) = one(&b2[i], &b2[j], x);
            let v: Vec<_> = (x..256)
                .map(|y| {
                    let (p, k) = one(&p, &k, y);
                    pair(&p, &k)
                })
                .collect();
            ch.say(|| format!("bit {} and every later one flipped", x));
            batch(ch, &aes_op(), &v)
        }),
        suite("two bytes", "all 65536 values of a plaintext byte and of a key byte, at every pair of equal positions and 16 more, over base block 5 with key 4 (thorough: all 256 pairs of positions)", move |ch| {
            let i = ch.choose(16);
            let d = if th { ch.choose(16) } else { ch.pick(&[0usize, 5]) };
            let hi = ch.choose(256) as u8;
            let v: Vec<_> = (0..=255u8)
                .map(|lo| {
                    let (mut p, mut k) = (b3[5], b3[4]);
                    p[i] = hi;
                    k[(i + d) % 16] = lo;
                    pair(&p, &k)
                })
                .collect();
            ch.say(|| format!("plaintext byte {} = {:#x}, key byte {} any", i, hi, (i + d) % 16));
            batch(ch, &aes_op(), &v)
        }),
        suite("gate values", "every gate of the circuit driven to every pair of values its operands can take: by single flipped bits around 9 (81) pairs of base blocks, and where those do not reach a pair by the BDD (up to 20000 (300000) nodes) of the condition", move |ch| {
            let mut v = vec![];
            for i in 0..b6.len() {
                for j in 0..b6.len() {
                    if th || i == j {
                        for x in 0..128 {
                            v.push(pair(&flip_block(&b6[i], x), &b6[j]));
                            v.push(pair(&b6[i], &flip_block(&b6[j], x)));
                        }
                    }
                }
            }
            ch.state(&v.len());
            gate_values(ch, &aes_op(), &v, if th { 300_000 } else { 20_000 }, 8)
        }),
        suite("inside a round", "every value of one byte (81 base states and keys), and every pair of values of two adjacent (any two) bytes, of the state entering every round, found by running the cipher backwards", move |ch| {
            let (i, j) = ch.pick(&few2);
            let round = ch.range(1, 10);
            let pos = ch.choose(16);
            let (s0, key) = (b4[i], b4[j]);
            // the other byte
            let (other, n) = if (i, j) == (5, 4) { (if th { (pos + ch.range(1, 15)) % 16 } else { (pos + 1) % 16 }, 256) } else { (pos, 1) };
            let mut v = vec![];
            for y in 0..n {
                for x in 0..=255u8 {
                    let mut s = s0;
                    if n > 1 {
                        s[other] = y as u8;
                    }
                    s[pos] = x;
                    v.push(pair(&refs::aes128_back(&s, round, &key), &key));
                }
            }
            ch.say(|| format!("round {} byte {} takes all values", round, pos));
            batch(ch, &aes_op(), &v)
        }),
        suite("inside the key schedule", "every value of one byte of every round key, found by running the key schedule backwards; 81 base round keys and plaintexts", move |ch| {
            let (i, j) = ch.pick(&few3);
            let round = ch.range(0, 10);
            let pos = ch.choose(16);
            let v: Vec<_> = (0..=255u8)
                .map(|x| {
                    let mut k = b5[j];
                    k[pos] = x;
                    pair(&b5[i], &refs::key_back(&k, round))
                })
                .collect();
            ch.say(|| format!("byte {} of round key {} takes all values", pos, round));
            batch(ch, &aes_op(), &v)
        }),
    ]
}
