//! C22, C23: bit, byte and hex conversions; extended gcd.

use crate::comb::*;
use crate::explore::*;
use circuit_converters::num_bigint::{BigInt, BigUint, Sign};
use circuit_converters::*;

/// bit i of byte k by the definition of the two orders
fn spec_bits(b: &[u8], le: bool) -> Vec<bool> {
    let mut v = Vec::with_capacity(8 * b.len());
    for x in b {
        let mut w = *x as u32;
        let mut d = [false; 8];
        // most significant first
        for i in 0..8 {
            d[i] = w / 128 == 1;
            w = w % 128 * 2;
        }
        if le {
            d.reverse();
        }
        v.extend(d);
    }
    v
}

fn spec_hex(b: &[u8]) -> String {
    const D: &str = "0123456789abcdef";
    b.iter().flat_map(|x| [*x / 16, *x % 16]).map(|d| D.chars().nth(d as usize).unwrap()).collect()
}

/// None: must be rejected
fn spec_unhex(s: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = s.chars().collect();
    let d: Option<Vec<u32>> = c.iter().map(|c| if c.is_ascii() { c.to_digit(16) } else { None }).collect();
    let d = d?;
    if d.len() % 2 == 1 {
        return None;
    }
    Some(d.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect())
}

fn check_bytes(b: &[u8]) -> R {
    imp("a conversion", || {
        for le in [true, false] {
            let want = spec_bits(b, le);
            let got = if le { bytes2bits_le(b) } else { bytes2bits_be(b) };
            if got != want {
                return Err(format!("bytes2bits_{} of {:02x?} is {:?}", if le { "le" } else { "be" }, b, got));
            }
            let back = if le { bits2bytes_le(&got) } else { bits2bytes_be(&got) };
            if back != b {
                return Err(format!("bits2bytes_{} of the bits of {:02x?} is {:02x?}", if le { "le" } else { "be" }, b, back));
            }
        }
        let h = bytes2hex(b);
        if h != spec_hex(b) {
            return Err(format!("bytes2hex of {:02x?} is {}", b, h));
        }
        for s in [h.clone(), h.to_uppercase()] {
            match hex2bytes(&s) {
                Ok(x) if x == b => {}
                r => return Err(format!("hex2bytes of {} is {:?}", s, r)),
            }
        }
        Ok(())
    })?
}

fn check_bits(b: &[bool]) -> R {
    imp("a conversion", || {
        for le in [true, false] {
            let got = if le { bits2bytes_le(b) } else { bits2bytes_be(b) };
            let want: Vec<u8> = b
                .chunks(8)
                .map(|c| {
                    let mut d: Vec<bool> = c.to_vec();
                    if le {
                        d.reverse();
                    }
                    d.iter().fold(0u8, |s, x| s.wrapping_mul(2) + *x as u8)
                })
                .collect();
            if got != want {
                return Err(format!("bits2bytes_{} of {} is {:02x?}", if le { "le" } else { "be" }, crate::model::show_bits(b), got));
            }
            let back = if le { bytes2bits_le(&got) } else { bytes2bits_be(&got) };
            if back != b {
                return Err(format!("bits {} do not survive bits2bytes_{0} and back: {:?}", crate::model::show_bits(b), back));
            }
        }
        Ok(())
    })?
}

fn check_hex(s: &str) -> R {
    let want = spec_unhex(s);
    let got = imp(&format!("hex2bytes of {:?}", s), || hex2bytes(s))?;
    match (want, got) {
        (Some(w), Ok(g)) if w == g => Ok(()),
        (None, Err(_)) => Ok(()),
        (w, g) => Err(format!("hex2bytes of {:?} is {:?}, expected {:?}", s, g, w)),
    }
}

/// every character up to U+024F and one of every kind beyond
fn chars() -> Vec<char> {
    let mut v: Vec<char> = (0..0x250u32).filter_map(char::from_u32).collect();
    v.extend(['\u{660}', '\u{966}', '\u{ff10}', '\u{ff11}', '\u{ff21}', '\u{ff41}', '\u{ff46}', '\u{1d7ce}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '\u{20ac}', '\u{1f600}']);
    v
}

pub fn c22(th: bool) -> Vec<Suite> {
    let cs = chars();
    let cs2 = cs.clone();
    vec![
        suite("short byte strings", "every byte string of length 0 to 2 (3): both bit orders against a definition by division, back again, hex in both cases and back", move |ch| {
            let top = if th { 3 } else { 2 };
            let n = ch.range(0, top);
            // the first byte is a choice, the others run
            let first = if n > 0 { ch.choose(256) as u8 } else { 0 };
            let mut b = vec![first; n];
            let rest = if n < 2 { 1u64 } else { 1 << (8 * (n - 1)) };
            for x in 0..rest {
                for k in 1..n {
                    b[k] = (x >> (8 * (k - 1))) as u8;
                }
                check_bytes(&b)?;
            }
            ch.add_states(rest);
            ch.evals(rest);
            ch.outcome(&(n, first));
            ch.say(|| format!("length {}, first byte {}", n, first));
            Ok(())
        }),
        suite("long byte strings", "every length from 0 to 300 (2000) and 4 more up to 100000, over 5 fillings; and at every length up to 40 (100) every value at every position", move |ch| {
            let big = [4095usize, 4096, 65537, 100_000];
            let dense = if th { 2000 } else { 300 };
            let i = ch.choose(dense + 1 + big.len());
            let n = if i <= dense { i } else { big[i - dense - 1] };
            let mut count = 0u64;
            for f in 0..5usize {
                let mut b: Vec<u8> = (0..n)
                    .map(|k| match f {
                        0 => 0,
                        1 => 0xff,
                        2 => k as u8,
                        3 => (k * 37 + k / 256 + 11) as u8,
                        _ => [0x01, 0x80, 0x0f, 0xf0][k % 4],
                    })
                    .collect();
                check_bytes(&b)?;
                count += 1;
                if n <= if th { 100 } else { 40 } && f >= 2 {
                    for p in 0..n {
                        let old = b[p];
                        for v in 0..=255u8 {
                            b[p] = v;
                            check_bytes(&b)?;
                        }
                        b[p] = old;
                        count += 256;
                    }
                }
            }
            ch.add_states(count);
            ch.evals(count);
            ch.say(|| format!("length {}: {} strings", n, count));
            Ok(())
        }),
        suite("bit strings", "every bit string of length 0, 8 and 16 (24); at every multiple of 8 up to 512 (4096) bits the constant and alternating ones with up to one bit flipped (two up to 64 bits)", move |ch| {
            let mode = ch.choose(2);
            let mut count = 0u64;
            if mode == 0 {
                let bytes = ch.range(0, if th { 3 } else { 2 });
                let n = 8 * bytes;
                let hi = if n > 8 { ch.choose(1 << (n - 8)) as u64 } else { 0 };
                for lo in 0..1u64 << n.min(8) {
                    check_bits(&crate::model::bits(hi << 8 | lo, n))?;
                    count += 1;
                }
                ch.say(|| format!("length {}: from {:#x}", n, hi << 8));
            } else {
                let n = 8 * ch.range(1, if th { 512 } else { 64 });
                for f in 0..4usize {
                    let mut b: Vec<bool> = (0..n).map(|k| [false, true, k % 2 == 0, k % 3 == 0][f]).collect();
                    check_bits(&b)?;
                    count += 1;
                    for i in 0..n {
                        b[i] = !b[i];
                        check_bits(&b)?;
                        count += 1;
                        if n <= 64 {
                            for j in 0..i {
                                b[j] = !b[j];
                                check_bits(&b)?;
                                b[j] = !b[j];
                                count += 1;
                            }
                        }
                        b[i] = !b[i];
                    }
                }
                ch.say(|| format!("length {}: {} strings", n, count));
            }
            ch.add_states(count);
            ch.evals(count);
            Ok(())
        }),
        suite("hex text", "every string of up to 2 characters over 604 characters (all up to U+024F and 14 others), of 3 over the 128 ASCII ones, of up to 5 (6) over {0, 9, a, F, g, space}; accepted exactly when it is an even number of hexadecimal digits", move |ch| {
            let mut count = 0u64;
            match ch.choose(3) {
                0 => {
                    let a = ch.choose(cs.len() + 1);
                    if a == cs.len() {
                        check_hex("")?;
                        count += 1;
                    } else {
                        check_hex(&cs[a].to_string())?;
                        for c in &cs {
                            check_hex(&format!("{}{}", cs[a], c))?;
                        }
                        count += 1 + cs.len() as u64;
                    }
                    ch.say(|| format!("first character number {}", a));
                }
                1 => {
                    let a = ch.choose(128) as u8 as char;
                    for b in 0..128u8 {
                        for c in 0..128u8 {
                            check_hex(&format!("{}{}{}", a, b as char, c as char))?;
                        }
                    }
                    count += 128 * 128;
                    ch.say(|| format!("three characters, the first {:?}", a));
                }
                _ => {
                    let n = ch.range(1, if th { 6 } else { 5 });
                    let al = ['0', '9', 'a', 'F', 'g', ' '];
                    let total = al.len().pow(n as u32);
                    for x in 0..total {
                        let s: String = (0..n).map(|k| al[x / al.len().pow(k as u32) % al.len()]).collect();
                        check_hex(&s)?;
                    }
                    count += total as u64;
                    ch.say(|| format!("{} characters of {:?}", n, al));
                }
            }
            ch.add_states(count);
            ch.evals(count);
            Ok(())
        }),
        suite("one bad character", "digit strings of every length from 1 to 64 with every one of the 604 characters at every position (of length 63 and 64 in the quick tier, and every length to 12)", move |ch| {
            let n = ch.range(1, 64);
            let p = ch.choose(n);
            if !th && n > 12 && n < 63 {
                return Ok(());
            }
            let d: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
            let base: Vec<char> = (0..n).map(|k| d[(k * 5 + n) % d.len()]).collect();
            for c in &cs2 {
                let s: String = base.iter().enumerate().map(|(k, x)| if k == p { *c } else { *x }).collect();
                check_hex(&s)?;
            }
            ch.add_states(cs2.len() as u64);
            ch.evals(cs2.len() as u64);
            ch.say(|| format!("length {}, every character at {}", n, p));
            Ok(())
        }),
    ]
}

/// Euclid by subtraction of shifted multiples, independent of division.
fn spec_gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let z = BigUint::from(0u32);
    if *a == z {
        return b.clone();
    }
    if *b == z {
        return a.clone();
    }
    let k = a.trailing_zeros().unwrap().min(b.trailing_zeros().unwrap());
    let (mut a, mut b) = (a >> a.trailing_zeros().unwrap(), b >> b.trailing_zeros().unwrap());
    while a != b {
        if a < b {
            std::mem::swap(&mut a, &mut b);
        }
        a -= &b;
        a >>= a.trailing_zeros().unwrap();
    }
    a << k
}

fn small_gcd(a: u64, b: u64) -> u64 {
    if a == 0 || b == 0 {
        return a | b;
    }
    let k = (a | b).trailing_zeros();
    let (mut a, mut b) = (a >> a.trailing_zeros(), b >> b.trailing_zeros());
    while a != b {
        if a > b {
            a -= b;
            a >>= a.trailing_zeros();
        } else {
            b -= a;
            b >>= b.trailing_zeros();
        }
    }
    a << k
}

fn check_gcd(a: &BigInt, b: &BigInt, want: Option<&BigUint>) -> R {
    let (x, y, d) = imp(&format!("ext_gcd of {} and {}", a, b), || ext_gcd(a, b))?;
    let say = |m: &str| Err(format!("ext_gcd of {} and {} is ({}, {}, {}): {}", a, b, x, y, d, m));
    if a * &x + b * &y != d {
        return say("a*x + b*y is not d");
    }
    let g = match want {
        Some(g) => g.clone(),
        None => spec_gcd(a.magnitude(), b.magnitude()),
    };
    if *d.magnitude() != g {
        return say(&format!("the greatest common divisor is {}", g));
    }
    let zero = BigInt::from(0);
    if *a >= zero && *b >= zero && d < zero {
        return say("negative for non-negative operands");
    }
    Ok(())
}

fn signed(x: &BigUint) -> [BigInt; 2] {
    [BigInt::from_biguint(Sign::Plus, x.clone()), BigInt::from_biguint(Sign::Minus, x.clone())]
}

pub fn c23(th: bool) -> Vec<Suite> {
    let span: i64 = if th { 6000 } else { 1500 };
    let widths: &'static [usize] = if th { &[8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 512, 1024, 2048, 4096] } else { &[8, 31, 32, 33, 63, 64, 65, 128, 256] };
    vec![
        suite("small", "all pairs of integers from -1500 to 1500 (-6000 to 6000); Bezout's identity exactly, the divisor against Stein's algorithm", move |ch| {
            let a = ch.choose((2 * span + 1) as usize) as i64 - span;
            let ba = BigInt::from(a);
            for b in -span..=span {
                check_gcd(&ba, &BigInt::from(b), Some(&BigUint::from(small_gcd(a.unsigned_abs(), b.unsigned_abs()))))?;
            }
            ch.add_states(2 * span as u64 + 1);
            ch.evals(2 * span as u64 + 1);
            ch.say(|| format!("a = {}", a));
            Ok(())
        }),
        suite("large", "all pairs of 2^i, 2^i-1, 2^i+1 (all or every few i), the two's complements and 13 patterns at 9 widths up to 256 (16 up to 4096), in all four signs", move |ch| {
            let w = ch.pick(widths);
            let step = 1 + w / 12;
            let mut l = edges(w);
            l.extend(runs(w, step));
            let i = ch.choose(l.len());
            let mut n = 0;
            for y in &l {
                let g = spec_gcd(&l[i], y);
                for a in signed(&l[i]) {
                    for b in signed(y) {
                        check_gcd(&a, &b, Some(&g))?;
                        n += 1;
                    }
                }
            }
            ch.add_states(n);
            ch.evals(n);
            ch.say(|| format!("{:#x} with {} values of width {}", l[i], l.len(), w));
            Ok(())
        }),
        suite("chains", "pairs with long remainder sequences: consecutive Fibonacci numbers up to F(2000) (debug-size recursion), g times them for 6 g, and pairs built backwards from every sequence of up to 4 (6) quotients out of {1, 2, 3, 2^32, 2^64-1} over 3 last remainders, in all signs", move |ch| {
            let mut n = 0u64;
            if ch.flip() {
                let k = ch.choose(2001);
                let (mut a, mut b) = (BigUint::from(0u32), BigUint::from(1u32));
                for _ in 0..k {
                    let c = &a + &b;
                    a = std::mem::replace(&mut b, c);
                }
                for g in [1u64, 2, 3, 12, u32::MAX as u64, u64::MAX] {
                    let g = BigUint::from(g);
                    for (p, q) in [(&a * &g, &b * &g), (&b * &g, &a * &g)] {
                        for x in signed(&p) {
                            for y in signed(&q) {
                                check_gcd(&x, &y, Some(&g))?;
                                n += 1;
                            }
                        }
                    }
                }
                ch.say(|| format!("Fibonacci numbers {} and {}", k, k + 1));
            } else {
                let qs: Vec<BigUint> = [1u64, 2, 3, 1 << 32, u64::MAX].map(BigUint::from).to_vec();
                let len = ch.range(1, if th { 6 } else { 4 });
                let g = BigUint::from(ch.pick(&[1u64, 6, (1 << 61) - 1]));
                let (mut a, mut b) = (g.clone(), BigUint::from(0u32));
                for _ in 0..len {
                    let q = ch.pick(&qs);
                    let c = &q * &a + &b;
                    b = std::mem::replace(&mut a, c);
                }
                for (p, q) in [(&a, &b), (&b, &a)] {
                    for x in signed(p) {
                        for y in signed(q) {
                            check_gcd(&x, &y, Some(&g))?;
                            n += 1;
                        }
                    }
                }
                ch.say(|| format!("{} and {}", a, b));
            }
            ch.add_states(n);
            ch.evals(n);
            Ok(())
        }),
    ]
}
