//! Circuits made with the crate's builders (integers, bit vectors, field, shipped files).

use crate::explore::imp;
use crate::model::*;
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::build_aes128;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type E = BuildCircuitError;

/// Calls a function generic over the width with the width given at run time.
#[macro_export]
macro_rules! with_width {
    ($n:expr, $f:ident, $args:tt, [ $($w:literal)* ]) => {
        match $n {
            $( $w => $f::<$w> $args, )*
            n => panic!("width {} is not instantiated", n),
        }
    };
}

pub const WIDTHS: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 47, 48, 49, 50, 60, 63, 64, 65, 66, 80, 96, 100, 127, 128, 129, 130, 160, 192, 200, 255, 256, 257, 258, 260, 300, 320, 384, 511, 512, 513, 514,
];

#[macro_export]
macro_rules! any_width {
    ($n:expr, $f:ident, $args:tt) => {
        $crate::with_width!($n, $f, $args, [
            1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 40 47 48 49 50 60 63 64 65 66 80 96 100 127 128 129 130 160 192 200 255 256 257 258 260 300 320 384 511 512 513 514])
    };
}

pub type Int<const N: usize> = AllocInt<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type Bits<const N: usize> = AllocBits<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type Fp<const N: usize> = AllocFp<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type IntCfg<const N: usize> = AllocIntConfig<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type BitsCfg<const N: usize> = AllocBitsConfig<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type FpCfg<const N: usize> = AllocFpConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

pub fn wrap<F: FnOnce(&mut Circ) -> Result<(), E>>(what: &str, f: F) -> Result<Circ, String> {
    let mut c = new_circ();
    imp(&format!("building {}", what), || f(&mut c))?.map_err(|e| format!("building {} failed: {}", what, e))?;
    Ok(c)
}

/// Two-operand integer operations over inputs a then b; the `_self` forms take a as both.
pub const INT_ARITH: &[&str] = &["add", "sub", "mul", "neg", "add_assign", "sub_assign", "mul_assign", "mul_extend", "add_self", "sub_self", "mul_self", "add_assign_self", "neg_neg"];
pub const INT_CMP: &[&str] = &["eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq"];

/// number of N-bit operands
pub fn int_arity(op: &str) -> usize {
    if op == "neg" || op == "neg_neg" || op.ends_with("_self") {
        1
    } else {
        2
    }
}

fn int_circ_n<const N: usize>(op: &str) -> Result<Circ, String> {
    wrap(&format!("{} of width {}", op, N), |c| {
        let cfg = IntCfg::<N>::new(c)?;
        let a = Int::<N>::new(&cfg)?;
        let mut b = a.clone();
        if int_arity(op) == 2 {
            b = Int::<N>::new(&cfg)?;
        }
        let out = |x: Int<N>| x.output();
        let bit = |g: GateId| -> Result<(), E> {
            let mut r = c.clone();
            r.output(g)?;
            Ok(())
        };
        match op {
            "add" | "add_self" => out(&a + &b),
            "sub" | "sub_self" => out(&a - &b),
            "mul" | "mul_self" => out(&a * &b),
            "neg" => out(-&a),
            "neg_neg" => out(-&(-&a)),
            "add_assign" | "add_assign_self" => {
                let mut x = a.clone();
                x += &b;
                out(x)
            }
            "sub_assign" => {
                let mut x = a.clone();
                x -= &b;
                out(x)
            }
            "mul_assign" => {
                let mut x = a.clone();
                x *= &b;
                out(x)
            }
            "mul_extend" => {
                let mut r = c.clone();
                let add2 = build_add_circuit(&mut r, 2 * N)?;
                let m = build_mul_extend_circuit(&mut r, N, add2)?;
                let ins = [&a.val_le[..], &b.val_le[..]].concat();
                for g in r.module(&m, &ins)? {
                    r.output(g)?;
                }
                Ok(())
            }
            "eq" => bit(a.eq(&b)?),
            "neq" => bit(a.neq(&b)?),
            "less" => bit(a.less(&b)?),
            "less_or_eq" => bit(a.less_or_eq(&b)?),
            "larger" => bit(a.larger(&b)?),
            "larger_or_eq" => bit(a.larger_or_eq(&b)?),
            "all_cmp" => {
                bit(a.eq(&b)?)?;
                bit(a.neq(&b)?)?;
                bit(a.less(&b)?)?;
                bit(a.less_or_eq(&b)?)?;
                bit(a.larger(&b)?)?;
                bit(a.larger_or_eq(&b)?)
            }
            "combo" => {
                (&a + &b).output()?;
                (&a - &b).output()?;
                (-&a).output()?;
                bit(a.eq(&b)?)?;
                bit(a.neq(&b)?)?;
                bit(a.less(&b)?)?;
                bit(a.less_or_eq(&b)?)?;
                bit(a.larger(&b)?)?;
                bit(a.larger_or_eq(&b)?)
            }
            _ => panic!("no integer operation {}", op),
        }
    })
}

/// The module-building functions themselves, for widths at which a whole configuration takes gigabytes.
fn raw_circ(op: &str, n: usize) -> Result<Circ, String> {
    wrap(&format!("{} of width {}", op, n), |c| {
        let mut r = c.clone();
        let mut ins = vec![];
        for _ in 0..2 * n {
            ins.push(r.input()?);
        }
        let add = build_add_circuit(&mut r, n)?;
        let eq = |r: &mut Circ| circuit_converters::logic::build_eq_circuit(r, n);
        let m = match op {
            "raw_add" => add,
            "raw_sub" => build_sub_circuit(&mut r, n, add)?,
            "raw_eq" => eq(&mut r)?,
            "raw_neq" => {
                let e = eq(&mut r)?;
                circuit_converters::logic::build_neq_circuit(&mut r, n, e)?
            }
            _ => {
                let sub = build_sub_circuit(&mut r, n, add)?;
                let less = build_less_circuit(&mut r, n, sub)?;
                let e = eq(&mut r)?;
                let le = build_less_or_eq_circuit(&mut r, n, less, e)?;
                match op {
                    "raw_less" => less,
                    "raw_less_or_eq" => le,
                    "raw_larger" => build_larger_circuit(&mut r, n, le)?,
                    "raw_larger_or_eq" => build_larger_or_eq_circuit(&mut r, n, less)?,
                    _ => panic!("no operation {}", op),
                }
            }
        };
        for g in r.module(&m, &ins)? {
            r.output(g)?;
        }
        Ok(())
    })
}

pub const RAW: &[&str] = &["raw_add", "raw_sub", "raw_eq", "raw_neq", "raw_less", "raw_less_or_eq", "raw_larger", "raw_larger_or_eq"];

pub fn int_circ(op: &str, n: usize) -> Result<Circ, String> {
    if op.starts_with("raw_") {
        return raw_circ(op, n);
    }
    any_width!(n, int_circ_n, (op))
}

pub const BITS_OPS: &[&str] = &["not", "and", "or", "xor", "and_assign", "or_assign", "xor_assign", "eq", "neq", "mux", "and_self", "or_self", "xor_self", "eq_self", "neq_self", "mux_self"];

/// operands a, b and for mux a select bit at the end
pub fn bits_inputs(op: &str, n: usize) -> usize {
    let k = if op == "not" || op.ends_with("_self") { n } else { 2 * n };
    k + op.starts_with("mux") as usize
}

fn bits_circ_n<const N: usize>(op: &str) -> Result<Circ, String> {
    wrap(&format!("{} of {} bits", op, N), |c| {
        let cfg = BitsCfg::<N>::new(c)?;
        let a = Bits::<N>::new(&cfg)?;
        let mut b = a.clone();
        if op != "not" && !op.ends_with("_self") {
            b = Bits::<N>::new(&cfg)?;
        }
        let out = |x: Bits<N>| x.output();
        let bit = |g: GateId| -> Result<(), E> {
            let mut r = c.clone();
            r.output(g)?;
            Ok(())
        };
        match op {
            "not" => out(!&a),
            "and" | "and_self" => out(&a & &b),
            "or" | "or_self" => out(&a | &b),
            "xor" | "xor_self" => out(&a ^ &b),
            "and_assign" => {
                let mut x = a.clone();
                x &= &b;
                out(x)
            }
            "or_assign" => {
                let mut x = a.clone();
                x |= &b;
                out(x)
            }
            "xor_assign" => {
                let mut x = a.clone();
                x ^= &b;
                out(x)
            }
            "eq" | "eq_self" => bit(a.eq(&b)?),
            "neq" | "neq_self" => bit(a.neq(&b)?),
            "mux" | "mux_self" => {
                let s = c.clone().input()?;
                out(a.mux(&b, &s)?)
            }
            _ => panic!("no bit operation {}", op),
        }
    })
}

pub fn bits_circ(op: &str, n: usize) -> Result<Circ, String> {
    any_width!(n, bits_circ_n, (op))
}

pub const FP_OPS: &[&str] = &["add", "sub", "neg", "add_assign", "sub_assign", "add_self", "sub_self", "eq", "neq", "eq_sum"];

fn fp_circ_n<const N: usize>(op: &str, p: &BigUint, r_exp: usize) -> Result<(Circ, BigUint, BigUint), String> {
    let mut consts = None;
    let c = wrap(&format!("field {} modulo {} with N={} r={}", op, p, N, r_exp), |c| {
        let ic = IntCfg::<N>::new(c)?;
        let cfg = FpCfg::<N>::new(c, &ic, p.clone(), r_exp)?;
        consts = Some((cfg.p_minus_inv.clone(), cfg.r2.clone()));
        if op == "config" {
            return Ok(());
        }
        let bit = |g: GateId| -> Result<(), E> {
            let mut r = c.clone();
            r.output(g)?;
            Ok(())
        };
        if op == "zero" {
            return Fp::<N>::zero(&cfg)?.output();
        }
        if op == "one" {
            return Fp::<N>::one(&cfg)?.output();
        }
        let a = Fp::<N>::new(&cfg)?;
        let mut b = a.clone();
        if !(op == "neg" || op == "redc" || op.ends_with("_self")) {
            b = Fp::<N>::new(&cfg)?;
        }
        match op {
            "redc" => {
                let mut r = c.clone();
                for g in r.module(&cfg.mont_red_mid, &a.to_gate_ids())? {
                    r.output(g)?;
                }
                Ok(())
            }
            "add" | "add_self" => (&a + &b).output(),
            "sub" | "sub_self" => (&a - &b).output(),
            "mul" | "mul_self" => (&a * &b).output(),
            "neg" => (-&a).output(),
            "add_assign" => {
                let mut x = a.clone();
                x += &b;
                x.output()
            }
            "sub_assign" => {
                let mut x = a.clone();
                x -= &b;
                x.output()
            }
            "mul_assign" => {
                let mut x = a.clone();
                x *= &b;
                x.output()
            }
            "eq" => bit(a.eq(&b)?),
            "neq" => bit(a.neq(&b)?),
            // a + b = b - (-a)
            "eq_sum" => {
                let l = &a + &b;
                let r = &b - &(-&a);
                bit(l.eq(&r)?)?;
                bit(l.neq(&r)?)
            }
            _ => panic!("no field operation {}", op),
        }
    })?;
    let (i, r2) = consts.unwrap();
    Ok((c, i, r2))
}

/// The circuit, p_minus_inv and r2.
pub fn fp_circ(op: &str, n: usize, p: &BigUint, r_exp: usize) -> Result<(Circ, BigUint, BigUint), String> {
    any_width!(n, fp_circ_n, (op, p, r_exp))
}

pub const SHIPPED: &[&str] = &["adder64", "sub64", "neg64", "mult2_64", "divide_signed_64", "divide_unsigned_64", "aes128"];

pub fn shipped(name: &str) -> Result<Circ, String> {
    wrap(name, |c| match name {
        "adder64" => build_adder64(c),
        "sub64" => build_sub64(c),
        "neg64" => build_neg64(c),
        "mult2_64" => build_mult2_64(c),
        "divide_signed_64" => build_divide_signed_64(c),
        "divide_unsigned_64" => build_divide_unsigned_64(c),
        "aes128" => build_aes128(c),
        _ => panic!("no shipped circuit {}", name),
    })
}

/// Named circuits from all builders, for the export and import properties.
pub fn catalogue(th: bool) -> Vec<(String, std::sync::Arc<dyn Fn() -> Result<Circ, String> + Send + Sync>)> {
    use std::sync::Arc;
    let mut v: Vec<(String, Arc<dyn Fn() -> Result<Circ, String> + Send + Sync>)> = vec![];
    for s in SHIPPED {
        v.push((s.to_string(), Arc::new(move || shipped(s))));
    }
    let ns: &[usize] = if th { &[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 33, 64] } else { &[1, 2, 3, 4, 8, 16] };
    for n in ns.iter().rev() {
        let n = *n;
        for op in INT_ARITH.iter().chain(INT_CMP) {
            if n > 16 && op.contains("mul") && !th {
                continue;
            }
            v.push((format!("int {} {}", op, n), Arc::new(move || int_circ(op, n))));
        }
        for op in BITS_OPS {
            v.push((format!("bits {} {}", op, n), Arc::new(move || bits_circ(op, n))));
        }
    }
    for (n, p, r) in [(8usize, 7u32, 3usize), (8, 5, 3), (6, 3, 2), (12, 31, 5), (16, 97, 7)] {
        for op in ["add", "sub", "neg", "mul", "redc", "eq", "one", "zero"] {
            v.push((format!("field {} mod {} N={}", op, p, n), Arc::new(move || Ok(fp_circ(op, n, &BigUint::from(p), r)?.0))));
        }
    }
    v
}

/// One more operation on an N-bit value, to see that it is one: none, doubled, shifted further, or compared.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Then {
    Out,
    PlusSelf,
    MinusOne,
    Left(usize),
    Right(usize),
}

fn then_out<const N: usize>(x: Int<N>, t: Then) -> Result<(), E> {
    match t {
        Then::Out => x.output(),
        Then::PlusSelf => (&x + &x).output(),
        Then::MinusOne => {
            let cfg = x.config.clone();
            (&x - &Int::<N>::one(&cfg)?).output()
        }
        Then::Left(k) => x.shift_left(k)?.output(),
        Then::Right(k) => x.shift_right(k)?.output(),
    }
}

fn shift_circ_n<const N: usize>(list: &[(bool, usize)], t: Then) -> Result<Circ, String> {
    wrap(&format!("shifts of width {}", N), |c| {
        let cfg = IntCfg::<N>::new(c)?;
        let a = Int::<N>::new(&cfg)?;
        for (left, k) in list {
            then_out(if *left { a.shift_left(*k)? } else { a.shift_right(*k)? }, t)?;
        }
        Ok(())
    })
}

/// All the listed shifts of one input.
pub fn shift_circ(list: &[(bool, usize)], t: Then, n: usize) -> Result<Circ, String> {
    any_width!(n, shift_circ_n, (list, t))
}

/// Where a constant comes from.
#[derive(Clone, Debug)]
pub enum Src {
    Value(BigUint),
    Zero,
    One,
}

fn const_circ_n<const N: usize>(srcs: &[Src], t: Then, plus_input: bool) -> Result<Circ, String> {
    wrap(&format!("constants of width {}", N), |c| {
        let cfg = IntCfg::<N>::new(c)?;
        for src in srcs {
            let mut x = match src {
                Src::Value(v) => Int::<N>::from_biguint(v, &cfg)?,
                Src::Zero => Int::<N>::zero(&cfg)?,
                Src::One => Int::<N>::one(&cfg)?,
            };
            if plus_input {
                let a = Int::<N>::new(&cfg)?;
                x = &a + &x;
            }
            then_out(x, t)?;
        }
        Ok(())
    })
}

pub fn const_circ(srcs: &[Src], t: Then, plus_input: bool, n: usize) -> Result<Circ, String> {
    any_width!(n, const_circ_n, (srcs, t, plus_input))
}

fn pad_circ_n<const N: usize>(ks: &[usize], t: Then) -> Result<Circ, String> {
    wrap(&format!("integers of width {} from gates", N), |c| {
        let cfg = IntCfg::<N>::new(c)?;
        let mut r = c.clone();
        let mut g = vec![];
        for _ in 0..ks.iter().max().copied().unwrap_or(0) {
            g.push(r.input()?);
        }
        for k in ks {
            then_out(Int::<N>::from_gate_ids(g[..*k].to_vec(), &cfg)?, t)?;
        }
        Ok(())
    })
}

/// The first k input bits made an N-bit integer, for every listed k.
pub fn pad_circ(ks: &[usize], t: Then, n: usize) -> Result<Circ, String> {
    any_width!(n, pad_circ_n, (ks, t))
}

fn pad_bits_circ_n<const N: usize>(k: usize, twice: bool) -> Result<Circ, String> {
    wrap(&format!("{} bits from {} gates", N, k), |c| {
        let cfg = BitsCfg::<N>::new(c)?;
        let mut r = c.clone();
        let mut g = vec![];
        for _ in 0..k {
            g.push(r.input()?);
        }
        let x = Bits::<N>::from_gate_ids(g, &cfg)?;
        if twice {
            (!&(!&x)).output()
        } else {
            x.output()
        }
    })
}

pub fn pad_bits_circ(k: usize, twice: bool, n: usize) -> Result<Circ, String> {
    any_width!(n, pad_bits_circ_n, (k, twice))
}
