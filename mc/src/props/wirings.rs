//! Operands that share gates: every wiring of the operands' bits to a pool of input and constant gates.

use super::builders::*;
use crate::explore::*;
use crate::model::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type E = BuildCircuitError;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Arith,
    Compare,
    Shift,
    Bits,
    Field(u32),
}

fn out(c: &Circ, g: GateId) -> Result<(), E> {
    c.clone().output(g)?;
    Ok(())
}

/// All operations of the kind applied to operands wired to the pool: `a[i]` is the pool entry of bit i.
fn circ_n<const N: usize>(kind: Kind, pool_in: usize, a: &[usize], b: &[usize], s: usize) -> Result<Circ, String> {
    wrap(&format!("{:?} of width {} on {:?} and {:?}", kind, N, a, b), |c| {
        let mut r = c.clone();
        let mut pool: Vec<GateId> = vec![];
        for _ in 0..pool_in {
            pool.push(r.input()?);
        }
        for v in [false, true] {
            pool.push(r.constant(v)?);
        }
        let ga: Vec<GateId> = a.iter().map(|i| pool[*i]).collect();
        let gb: Vec<GateId> = b.iter().map(|i| pool[*i]).collect();
        match kind {
            Kind::Arith | Kind::Compare | Kind::Shift => {
                let cfg = IntCfg::<N>::new(c)?;
                let x = Int::<N>::from_gate_ids(ga, &cfg)?;
                let y = Int::<N>::from_gate_ids(gb, &cfg)?;
                match kind {
                    Kind::Arith => {
                        (&x + &y).output()?;
                        (&x - &y).output()?;
                        (&x * &y).output()?;
                        (-&x).output()?;
                        let mut t = x.clone();
                        t += &y;
                        t.output()?;
                        let mut t = x.clone();
                        t -= &y;
                        t.output()?;
                        let mut t = x.clone();
                        t *= &y;
                        t.output()?;
                    }
                    Kind::Compare => {
                        out(c, x.eq(&y)?)?;
                        out(c, x.neq(&y)?)?;
                        out(c, x.less(&y)?)?;
                        out(c, x.less_or_eq(&y)?)?;
                        out(c, x.larger(&y)?)?;
                        out(c, x.larger_or_eq(&y)?)?;
                    }
                    _ => {
                        x.output()?;
                        for k in 0..=N {
                            x.shift_left(k)?.output()?;
                            x.shift_right(k)?.output()?;
                        }
                    }
                }
                Ok(())
            }
            Kind::Bits => {
                let cfg = BitsCfg::<N>::new(c)?;
                let x = Bits::<N>::from_gate_ids(ga, &cfg)?;
                let y = Bits::<N>::from_gate_ids(gb, &cfg)?;
                (&x & &y).output()?;
                (&x | &y).output()?;
                (&x ^ &y).output()?;
                (!&x).output()?;
                let mut t = x.clone();
                t &= &y;
                t.output()?;
                let mut t = x.clone();
                t |= &y;
                t.output()?;
                let mut t = x.clone();
                t ^= &y;
                t.output()?;
                x.mux(&y, &pool[s])?.output()?;
                out(c, x.eq(&y)?)?;
                out(c, x.neq(&y)?)
            }
            Kind::Field(p) => {
                let ic = IntCfg::<N>::new(c)?;
                let p = BigUint::from(p);
                let r = p.bits() as usize;
                let cfg = FpCfg::<N>::new(c, &ic, p, r)?;
                // upper bits from the pool's constant 0
                let wide = |mut g: Vec<GateId>| {
                    g.resize(N, pool[pool_in]);
                    g
                };
                let x = Fp::<N>::from_gate_ids_unchecked(wide(ga), &cfg);
                let y = Fp::<N>::from_gate_ids_unchecked(wide(gb), &cfg);
                (&x + &y).output()?;
                (&x - &y).output()?;
                (-&x).output()?;
                let mut t = x.clone();
                t += &y;
                t.output()?;
                let mut t = x.clone();
                t -= &y;
                t.output()?;
                out(c, x.eq(&y)?)?;
                out(c, x.neq(&y)?)
            }
        }
    })
}

fn circ(kind: Kind, n: usize, pool_in: usize, a: &[usize], b: &[usize], s: usize) -> Result<Circ, String> {
    crate::with_width!(n, circ_n, (kind, pool_in, a, b, s), [ 1 2 3 4 5 ])
}

/// (value, width, what) of every output group
fn want(kind: Kind, n: usize, a: u64, b: u64, s: bool) -> Vec<(u64, usize, &'static str)> {
    let m = (1u64 << n) - 1;
    let sg = |x: u64| if x >> (n - 1) & 1 == 1 { x as i64 - (1i64 << n) } else { x as i64 };
    match kind {
        Kind::Arith => {
            let (add, sub, mul) = (a + b & m, a.wrapping_sub(b) & m, a * b & m);
            vec![(add, n, "+"), (sub, n, "-"), (mul, n, "*"), (a.wrapping_neg() & m, n, "neg"), (add, n, "+="), (sub, n, "-="), (mul, n, "*=")]
        }
        Kind::Compare => {
            let (x, y) = (sg(a), sg(b));
            [(x == y, "eq"), (x != y, "neq"), (x < y, "less"), (x <= y, "less_or_eq"), (x > y, "larger"), (x >= y, "larger_or_eq")].iter().map(|(v, t)| (*v as u64, 1, *t)).collect()
        }
        Kind::Shift => {
            let mut v = vec![(a, n, "value")];
            for k in 0..=n {
                v.push((a << k & m, n, "shift_left"));
                v.push(((sg(a) >> k) as u64 & m, n, "shift_right"));
            }
            v
        }
        Kind::Bits => vec![
            (a & b, n, "and"),
            (a | b, n, "or"),
            (a ^ b, n, "xor"),
            (!a & m, n, "not"),
            (a & b, n, "and_assign"),
            (a | b, n, "or_assign"),
            (a ^ b, n, "xor_assign"),
            (if s { b } else { a }, n, "mux"),
            ((a == b) as u64, 1, "eq"),
            ((a != b) as u64, 1, "neq"),
        ],
        Kind::Field(p) => {
            let p = p as u64;
            let (add, sub) = ((a + b) % p, (p + a - b) % p);
            vec![(add, n, "+"), (sub, n, "-"), ((p - a) % p, n, "neg"), (add, n, "+="), (sub, n, "-="), ((a == b) as u64, 1, "eq"), ((a != b) as u64, 1, "neq")]
        }
    }
}

fn wirings(kind: Kind, name: &str, list: Vec<(usize, usize, usize)>, about: &str) -> Suite {
    suite(
        name,
        &format!("every wiring of the operands' bits to a pool of input and constant gates ({}; widths and pools {:?}), so operands share gates in every way: all inputs on the implementation's evaluator", about, list),
        move |ch| {
            // (width, bits wired, inputs of the pool)
            let (n, bits_wired, k) = ch.pick(&list);
            let pool = k + 2;
            let a: Vec<usize> = (0..bits_wired).map(|_| ch.choose(pool)).collect();
            let b: Vec<usize> = if kind == Kind::Shift { a.clone() } else { (0..bits_wired).map(|_| ch.choose(pool)).collect() };
            let s = if kind == Kind::Bits { ch.choose(pool) } else { 0 };
            ch.state(&(n, &a, &b, s));
            let c = circ(kind, n, k, &a, &b, s)?;
            let mut ev = NXAOBoolEvaluator::new(c.clone());
            for i in 0..1u64 << k {
                let ins = bits(i, k);
                let full: u64 = i | 1 << (k + 1);
                let val = |w: &[usize]| w.iter().enumerate().map(|(j, x)| (full >> x & 1) << j).sum::<u64>();
                let (x, y) = (val(&a), val(&b));
                if let Kind::Field(p) = kind {
                    if x >= p as u64 || y >= p as u64 {
                        continue;
                    }
                }
                let w = want(kind, n, x, y, full >> s & 1 == 1);
                let got = eval_with(&mut ev, &ins)?;
                let mut at = 0;
                for (v, width, what) in &w {
                    let g: Vec<bool> = got.iter().copied().skip(at).take(*width).collect();
                    if g != bits(*v, *width) {
                        return Err(format!(
                            "{:?} of width {}: {} of {} and {} is {}, expected {} (least significant bit first); operand bits are pool gates {:?} and {:?}, select {}; the pool is {} inputs ({}), 0, 1",
                            kind, n, what, x, y, show_bits(&g), show_bits(&bits(*v, *width)), a, b, s, k, show_bits(&ins)
                        ));
                    }
                    at += width;
                }
                if got.len() != at {
                    return Err(format!("{} output bits, expected {}", got.len(), at));
                }
                ch.evals(1);
                ch.outcome(&w.iter().map(|x| x.0).collect::<Vec<_>>());
            }
            Ok(())
        },
    )
}

pub fn arith(th: bool) -> Suite {
    let mut l = vec![(1, 1, 2), (2, 2, 2), (2, 2, 3), (3, 3, 2), (3, 3, 3), (4, 4, 1)];
    if th {
        l.extend([(3, 3, 4), (4, 4, 2)]);
    }
    wirings(Kind::Arith, "shared gates", l, "addition, subtraction, multiplication, negation and assignments")
}

pub fn compare(th: bool) -> Suite {
    let mut l = vec![(1, 1, 2), (2, 2, 2), (2, 2, 3), (3, 3, 2), (3, 3, 3), (4, 4, 1)];
    if th {
        l.extend([(3, 3, 4), (4, 4, 2)]);
    }
    wirings(Kind::Compare, "shared gates", l, "all comparisons")
}

pub fn shift(th: bool) -> Suite {
    let l = vec![(1, 1, 2), (2, 2, 2), (3, 3, 3), (4, 4, 2), (5, 5, if th { 4 } else { 2 })];
    wirings(Kind::Shift, "shared gates", l, "the value and both shifts by every amount up to the width")
}

pub fn bitvec(th: bool) -> Suite {
    let mut l = vec![(1, 1, 3), (2, 2, 3), (3, 3, 2), (3, 3, 3), (4, 4, 1)];
    if th {
        l.extend([(3, 3, 4), (4, 4, 2)]);
    }
    wirings(Kind::Bits, "shared gates", l, "all operations, assignments and the multiplexer with its select bit from the pool")
}

pub fn field(p: u32, n: usize, th: bool) -> Suite {
    let r = (32 - p.leading_zeros()) as usize;
    let l = vec![(n, r, if th { 3 } else { 2 })];
    wirings(Kind::Field(p), &format!("shared gates modulo {}", p), l, "addition, subtraction, negation, assignments and equality")
}
