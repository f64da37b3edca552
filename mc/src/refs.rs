//! AES-128 by its definition (FIPS-197), independent of the circuit.

use std::sync::OnceLock;

fn xt(a: u8) -> u8 {
    a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}

pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}

struct Tables {
    s: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 16],
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { s: [0; 256], inv: [0; 256], m: [[0; 256]; 16] };
        for x in 0..=255u8 {
            let i = (0..=255u8).find(|y| gmul(x, *y) == 1).unwrap_or(0);
            let y = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            t.s[x as usize] = y;
            t.inv[y as usize] = x;
            for k in 0..16u8 {
                t.m[k as usize][x as usize] = gmul(x, k);
            }
        }
        t
    })
}

fn next_key(k: &mut [u8; 16], rcon: u8) {
    let t = tables();
    let w = [t.s[k[13] as usize] ^ rcon, t.s[k[14] as usize], t.s[k[15] as usize], t.s[k[12] as usize]];
    for i in 0..4 {
        k[i] ^= w[i];
    }
    for i in 4..16 {
        k[i] ^= k[i - 4];
    }
}

fn prev_key(k: &mut [u8; 16], rcon: u8) {
    let t = tables();
    for i in (4..16).rev() {
        k[i] ^= k[i - 4];
    }
    let w = [t.s[k[13] as usize] ^ rcon, t.s[k[14] as usize], t.s[k[15] as usize], t.s[k[12] as usize]];
    for i in 0..4 {
        k[i] ^= w[i];
    }
}

fn rcon(round: usize) -> u8 {
    let mut r = 1;
    for _ in 1..round {
        r = xt(r);
    }
    r
}

/// The cipher key whose round key number `round` is k.
pub fn key_back(k: &[u8; 16], round: usize) -> [u8; 16] {
    let mut k = *k;
    for r in (1..=round).rev() {
        prev_key(&mut k, rcon(r));
    }
    k
}

fn shift_rows(s: &[u8; 16]) -> [u8; 16] {
    let mut r = [0; 16];
    for c in 0..4 {
        for row in 0..4 {
            r[4 * c + row] = s[4 * ((c + row) % 4) + row];
        }
    }
    r
}

fn unshift_rows(s: &[u8; 16]) -> [u8; 16] {
    let mut r = [0; 16];
    for c in 0..4 {
        for row in 0..4 {
            r[4 * ((c + row) % 4) + row] = s[4 * c + row];
        }
    }
    r
}

fn mix(s: &[u8; 16], co: [usize; 4]) -> [u8; 16] {
    let t = tables();
    let mut r = [0; 16];
    for c in 0..4 {
        for row in 0..4 {
            r[4 * c + row] = (0..4).fold(0, |a, k| a ^ t.m[co[(k + 4 - row) % 4]][s[4 * c + k] as usize]);
        }
    }
    r
}

fn xor(s: &mut [u8; 16], k: &[u8; 16]) {
    for i in 0..16 {
        s[i] ^= k[i];
    }
}

pub fn aes128(p: &[u8; 16], key: &[u8; 16]) -> [u8; 16] {
    let t = tables();
    let mut s = *p;
    let mut k = *key;
    xor(&mut s, &k);
    for r in 1..=10 {
        s = s.map(|x| t.s[x as usize]);
        s = shift_rows(&s);
        if r < 10 {
            s = mix(&s, [2, 3, 1, 1]);
        }
        next_key(&mut k, rcon(r));
        xor(&mut s, &k);
    }
    s
}

/// The plaintext for which the state entering round `round` (1 to 10, before its S-boxes) is s.
pub fn aes128_back(s: &[u8; 16], round: usize, key: &[u8; 16]) -> [u8; 16] {
    let t = tables();
    let mut ks = vec![*key];
    for r in 1..round {
        let mut k = ks[r - 1];
        next_key(&mut k, rcon(r));
        ks.push(k);
    }
    let mut s = *s;
    for r in (1..round).rev() {
        xor(&mut s, &ks[r]);
        s = mix(&s, [14, 11, 13, 9]);
        s = unshift_rows(&s);
        s = s.map(|x| t.inv[x as usize]);
    }
    xor(&mut s, &ks[0]);
    s
}
