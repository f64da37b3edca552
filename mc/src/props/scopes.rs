//! C24: one configuration used in the main circuit and, redirected the way the library redirects
//! its own, in sub-circuits, in every order of operations.

use super::builders::*;
use crate::explore::*;
use crate::model::*;
use crate::netlist::Net;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type E = BuildCircuitError;
const N: usize = 4;
const P: u32 = 3;
const TOP: u32 = (1 << N) - 1;

/// The value of a declared output on the scope's own x and y; None: outside the property.
type F = Box<dyn Fn(u32, u32) -> Option<u32>>;

struct Scope {
    mid: Option<ModuleId>,
    c: Circ,
    ic: IntCfg<N>,
    bc: BitsCfg<N>,
    fc: FpCfg<N>,
    x: Vec<GateId>,
    y: Vec<GateId>,
    want: Vec<(F, usize)>,
    text: Vec<String>,
}

/// The operations of C24.
pub const MIXED: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
pub const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35];
pub const ARITH: &[usize] = &[0, 1, 2, 3, 4, 32, 10];
pub const COMPARE: &[usize] = &[12, 13, 14, 24, 25, 26, 0];
pub const CONSTS: &[usize] = &[5, 6, 7, 8, 9, 10, 11, 35];
pub const VECS: &[usize] = &[15, 16, 17, 18, 19, 27, 28, 29, 30];
pub const FIELD: &[usize] = &[20, 21, 22, 23, 31, 33, 34];

/// The suite of one property: its own operations only.
pub fn of(th: bool, ops: &'static [usize]) -> Suite {
    suite(
        "scopes",
        "configurations shared by the main circuit and one or two sub-circuits (redirected as the library does), every sequence of 3 (4; with two sub-circuits 2 (3)) of this property's operations in any scope, inputs declared before or after the configurations, sub-circuits called with both orders of arguments; all 256 assignments",
        move |ch| {
            let (subs, d) = ch.pick(if th { &[(1usize, 4usize), (2, 3)] } else { &[(1, 3), (2, 2)] });
            scopes(ch, subs, d, ops)
        },
    )
}

fn sign(v: u32) -> i32 {
    ((v << 28) as i32) >> 28
}

fn step(s: &mut Scope, k: usize) -> Result<(), E> {
    let ic = &s.ic;
    let x = || Int::<N>::from_gate_ids(s.x.clone(), ic);
    let y = || Int::<N>::from_gate_ids(s.y.clone(), ic);
    let u = || Bits::<N>::from_gate_ids(s.x.clone(), &s.bc);
    let v = || Bits::<N>::from_gate_ids(s.y.clone(), &s.bc);
    let a = || Fp::<N>::from_gate_ids_unchecked(s.x.clone(), &s.fc);
    let b = || Fp::<N>::from_gate_ids_unchecked(s.y.clone(), &s.fc);
    let mut c = s.c.clone();
    let all = |f: fn(u32, u32) -> u32| -> (F, usize) { (Box::new(move |x, y| Some(f(x, y) & TOP)), N) };
    let bit = |f: fn(u32, u32) -> bool| -> (F, usize) { (Box::new(move |x, y| Some(f(x, y) as u32)), 1) };
    let fp = |f: fn(u32, u32) -> u32| -> (F, usize) { (Box::new(move |x, y| if x < P && y < P { Some(f(x, y)) } else { None }), N) };
    let (name, w) = match k {
        0 => ((&x()? + &y()?).output()?, "x+y", all(|x, y| x + y)).split(),
        1 => ((&x()? - &y()?).output()?, "x-y", all(|x, y| x.wrapping_sub(y))).split(),
        2 => ((&x()? * &y()?).output()?, "x*y", all(|x, y| x * y)).split(),
        3 => ((-&x()?).output()?, "-x", all(|x, _| x.wrapping_neg())).split(),
        4 => {
            let mut t = y()?;
            t += &x()?;
            t -= &Int::<N>::one(ic)?;
            (t.output()?, "y+=x, -=1", all(|x, y| (x + y).wrapping_sub(1))).split()
        }
        5 => (x()?.shift_left(1)?.output()?, "x<<1", all(|x, _| x << 1)).split(),
        6 => (y()?.shift_left(3)?.output()?, "y<<3", all(|_, y| y << 3)).split(),
        7 => (x()?.shift_right(2)?.output()?, "x>>2", all(|x, _| (sign(x) >> 2) as u32)).split(),
        8 => ((&Int::<N>::from_biguint(&BigUint::from(5u32), ic)? + &x()?).output()?, "5+x", all(|x, _| x + 5)).split(),
        9 => (Int::<N>::from_biguint(&BigUint::from(10u32), ic)?.output()?, "10", all(|_, _| 10)).split(),
        10 => ((&Int::<N>::zero(ic)? - &y()?).output()?, "0-y", all(|_, y| y.wrapping_neg())).split(),
        11 => (Int::<N>::from_gate_ids(s.y[1..3].to_vec(), ic)?.output()?, "y[1..3]", all(|_, y| y >> 1 & 3)).split(),
        12 => (c.output(x()?.less(&y()?)?).map(|_| ())?, "x<y", bit(|x, y| sign(x) < sign(y))).split(),
        13 => (c.output(x()?.eq(&y()?)?).map(|_| ())?, "x==y", bit(|x, y| x == y)).split(),
        14 => (c.output(x()?.larger_or_eq(&y()?)?).map(|_| ())?, "x>=y", bit(|x, y| sign(x) >= sign(y))).split(),
        15 => ((!&u()?).output()?, "!x", all(|x, _| !x)).split(),
        16 => ((&u()? & &v()?).output()?, "x&y", all(|x, y| x & y)).split(),
        17 => (u()?.mux(&v()?, &s.x[0])?.output()?, "mux(x,y,x0)", all(|x, y| if x & 1 == 1 { y } else { x })).split(),
        18 => (v()?.mux(&u()?, &s.y[3])?.output()?, "mux(y,x,y3)", all(|x, y| if y >> 3 == 1 { x } else { y })).split(),
        19 => ((&Bits::<N>::from_gate_ids(s.x[..3].to_vec(), &s.bc)? ^ &v()?).output()?, "x[..3]^y", all(|x, y| x & 7 ^ y)).split(),
        20 => ((&a() + &b()).output()?, "x+y mod 3", fp(|x, y| (x + y) % P)).split(),
        21 => ((&a() - &b()).output()?, "x-y mod 3", fp(|x, y| (x + P - y) % P)).split(),
        22 => ((-&b()).output()?, "-y mod 3", fp(|_, y| (P - y) % P)).split(),
        24 => (c.output(x()?.less_or_eq(&y()?)?).map(|_| ())?, "x<=y", bit(|x, y| sign(x) <= sign(y))).split(),
        25 => (c.output(x()?.neq(&y()?)?).map(|_| ())?, "x!=y", bit(|x, y| x != y)).split(),
        26 => (c.output(x()?.larger(&y()?)?).map(|_| ())?, "x>y", bit(|x, y| sign(x) > sign(y))).split(),
        27 => (c.output(u()?.eq(&v()?)?).map(|_| ())?, "x==y bitwise", bit(|x, y| x == y)).split(),
        28 => (c.output(v()?.neq(&u()?)?).map(|_| ())?, "y!=x bitwise", bit(|x, y| x != y)).split(),
        29 => ((&u()? | &v()?).output()?, "x|y", all(|x, y| x | y)).split(),
        30 => {
            let mut t = v()?;
            t ^= &u()?;
            t |= &v()?;
            t &= &(!&u()?);
            (t.output()?, "((y^x)|y)&!x", all(|x, y| ((y ^ x) | y) & !x)).split()
        }
        31 => (c.output(a().eq(&b())?).map(|_| ())?, "x==y mod 3", (Box::new(|x: u32, y: u32| if x < P && y < P { Some((x == y) as u32) } else { None }) as F, 1)).split(),
        32 => {
            let mut t = x()?;
            t *= &y()?;
            t -= &x()?;
            (t.output()?, "x*=y, -=x", all(|x, y| (x * y).wrapping_sub(x))).split()
        }
        33 => {
            let mut t = b();
            t -= &a();
            (t.output()?, "y-=x mod 3", fp(|x, y| (y + P - x) % P)).split()
        }
        34 => ((&Fp::<N>::zero(&s.fc)? - &Fp::<N>::one(&s.fc)?).output()?, "0-1 mod 3", fp(|_, _| 2)).split(),
        35 => (x()?.shift_left(2)?.shift_right(3)?.output()?, "x<<2>>3", all(|x, _| (sign(x << 2 & TOP) >> 3) as u32)).split(),
        _ => {
            let mut t = a();
            t += &Fp::<N>::one(&s.fc)?;
            (t.output()?, "x+=1 mod 3", fp(|x, _| (x + 1) % P)).split()
        }
    };
    s.text.push(name.into());
    s.want.push(w);
    Ok(())
}

trait Split<A, B> {
    fn split(self) -> (A, B);
}
impl<A, B> Split<A, B> for ((), A, B) {
    fn split(self) -> (A, B) {
        (self.1, self.2)
    }
}

/// `subs` sub-circuits, `depth` operations, each in any scope; each sub-circuit is called at the
/// end on (x, y) or (y, x).
pub fn scopes(ch: &mut Ch, subs: usize, depth: usize, ops: &[usize]) -> R {
    let c = new_circ();
    let late = ch.flip();
    let e = |e: E| e.to_string();
    let mut sc: Vec<Scope> = imp("configurations", || -> Result<_, E> {
        let mut r = c.clone();
        let mut ins = vec![];
        if !late {
            for _ in 0..2 * N {
                ins.push(r.input()?);
            }
        }
        let ic = IntCfg::<N>::new(&c)?;
        let bc = BitsCfg::<N>::new(&c)?;
        let fc = FpCfg::<N>::new(&c, &ic, BigUint::from(P), 2)?;
        while ins.len() < 2 * N {
            ins.push(r.input()?);
        }
        let mut v = vec![Scope { mid: None, c: c.clone(), ic: ic.clone(), bc: bc.clone(), fc: fc.clone(), x: ins[..N].to_vec(), y: ins[N..].to_vec(), want: vec![], text: vec![] }];
        for _ in 0..subs {
            let (mid, sub) = r.sub_circuit();
            let (mut ic, mut bc, mut fc) = (ic.clone(), bc.clone(), fc.clone());
            ic.c_ref = sub.clone();
            bc.c_ref = sub.clone();
            fc.c_ref = sub.clone();
            fc.int_config.c_ref = sub.clone();
            let mut s = sub.clone();
            let ins = (0..2 * N).map(|_| s.input()).collect::<Result<Vec<_>, _>>()?;
            v.push(Scope { mid: Some(mid), c: sub, ic, bc, fc, x: ins[..N].to_vec(), y: ins[N..].to_vec(), want: vec![], text: vec![] });
        }
        Ok(v)
    })?
    .map_err(e)?;
    for _ in 0..depth {
        let i = ch.choose(subs + 1);
        let k = ch.pick(ops);
        let what = show(&sc);
        imp(&format!("{} then operation {} in scope {}", what, k, i), || step(&mut sc[i], k))?.map_err(|e| format!("{} then operation {} in scope {}: {}", what, k, i, e))?;
    }
    let what = show(&sc);
    // the calls; (scope, swapped) of every group of outputs
    let mut groups: Vec<(usize, bool)> = vec![(0, false)];
    let (x, y) = (sc[0].x.clone(), sc[0].y.clone());
    for (i, s) in sc.iter().enumerate().skip(1) {
        if s.want.is_empty() {
            continue;
        }
        for swap in [true, false] {
            let args = if swap { [&y[..], &x[..]].concat() } else { [&x[..], &y[..]].concat() };
            imp(&what, || -> Result<(), E> {
                let mut r = c.clone();
                for g in r.module(&s.mid.unwrap(), &args)? {
                    r.output(g)?;
                }
                Ok(())
            })?
            .map_err(|e| format!("{}: call: {}", what, e))?;
            groups.push((i, swap));
        }
    }
    let net = Net::extract(&c).map_err(|e| format!("{}: {}", what, e))?;
    let fields: Vec<(&F, usize, bool)> = groups.iter().flat_map(|(i, swap)| sc[*i].want.iter().map(move |(f, w)| (f, *w, *swap))).collect();
    let total: usize = fields.iter().map(|f| f.1).sum();
    if net.outs.len() != total || net.n_in != 2 * N {
        return Err(format!("{}: {} inputs and {} outputs, expected {} and {}", what, net.n_in, net.outs.len(), 2 * N, total));
    }
    let judge = |i: usize, out: &dyn Fn(usize) -> bool| -> R {
        let (x, y) = (i as u32 & TOP, i as u32 >> N);
        let mut at = 0;
        for (n, (f, w, swap)) in fields.iter().enumerate() {
            let want = if *swap { f(y, x) } else { f(x, y) };
            let got = (0..*w).fold(0u32, |s, k| s | (out(at + k) as u32) << k);
            if want.map_or(false, |w| w != got) {
                return Err(format!("{}: x={}, y={}: value {} is {}, expected {}", what, x, y, n, got, want.unwrap()));
            }
            at += w;
        }
        Ok(())
    };
    let pat = crate::model::lanes(6);
    let mut v: Vec<[u64; 4]> = vec![];
    let iv: Vec<[u64; 4]> = (0..2 * N).map(|i| std::array::from_fn(|j| if i < 6 { pat[i] } else if j >> (i - 6) & 1 == 1 { !0 } else { 0 })).collect();
    net.sim(&iv, &mut v);
    let bad = (0..256).find(|i| judge(*i, &|o| v[net.outs[o] as usize][i / 64] >> (i % 64) & 1 == 1).is_err());
    for i in match bad {
        Some(i) => vec![i],
        None => vec![0x21, 0xd6],
    } {
        let got = eval_real(&c, &bits(i as u64, 2 * N)).map_err(|e| format!("{}: {}", what, e))?;
        ch.evals(1);
        if got.len() != total {
            return Err(format!("{}: {} outputs, expected {}", what, got.len(), total));
        }
        judge(i, &|o| got[o])?;
        if bad.is_some() {
            std::panic::panic_any(EngineError(format!("netlist and evaluator differ: {} on {}", what, i)));
        }
    }
    ch.state(&what);
    ch.outcome(&total);
    ch.say(|| format!("{}: 256 assignments", what));
    Ok(())
}

fn show(sc: &[Scope]) -> String {
    sc.iter().enumerate().map(|(i, s)| format!("{}: {:?}", if i == 0 { "main circuit".to_string() } else { format!("sub-circuit {}", i) }, s.text)).collect::<Vec<_>>().join("; ")
}
