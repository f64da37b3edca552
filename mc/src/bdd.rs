//! A small reduced ordered BDD package (symbolic state sets over the circuit inputs).

use rustc_hash::FxHashMap;

#[derive(Debug)]
pub struct Cap;

pub struct Bdd {
    var: Vec<u32>,
    lo: Vec<u32>,
    hi: Vec<u32>,
    unique: FxHashMap<(u32, u32, u32), u32>,
    cache: FxHashMap<(u32, u32, u32), u32>,
    cap: usize,
}

const TERM: u32 = u32::MAX;

impl Bdd {
    pub fn new(cap: usize) -> Bdd {
        Bdd { var: vec![TERM, TERM], lo: vec![0, 1], hi: vec![0, 1], unique: FxHashMap::default(), cache: FxHashMap::default(), cap }
    }
    pub fn size(&self) -> usize {
        self.var.len()
    }
    fn mk(&mut self, v: u32, lo: u32, hi: u32) -> Result<u32, Cap> {
        if lo == hi {
            return Ok(lo);
        }
        if let Some(x) = self.unique.get(&(v, lo, hi)) {
            return Ok(*x);
        }
        if self.var.len() >= self.cap {
            return Err(Cap);
        }
        let n = self.var.len() as u32;
        self.var.push(v);
        self.lo.push(lo);
        self.hi.push(hi);
        self.unique.insert((v, lo, hi), n);
        Ok(n)
    }
    pub fn var(&mut self, v: u32) -> Result<u32, Cap> {
        self.mk(v, 0, 1)
    }
    pub fn not(&mut self, a: u32) -> Result<u32, Cap> {
        self.apply(2, a, 1)
    }
    pub fn xor(&mut self, a: u32, b: u32) -> Result<u32, Cap> {
        self.apply(2, a, b)
    }
    pub fn and(&mut self, a: u32, b: u32) -> Result<u32, Cap> {
        self.apply(0, a, b)
    }
    pub fn or(&mut self, a: u32, b: u32) -> Result<u32, Cap> {
        self.apply(1, a, b)
    }
    fn apply(&mut self, op: u32, a: u32, b: u32) -> Result<u32, Cap> {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match op {
            0 => {
                if a == 0 || a == b {
                    return Ok(a);
                }
                if a == 1 {
                    return Ok(b);
                }
            }
            1 => {
                if a == 1 {
                    return Ok(1);
                }
                if a == 0 || a == b {
                    return Ok(b);
                }
            }
            _ => {
                if a == b {
                    return Ok(0);
                }
                if a == 0 {
                    return Ok(b);
                }
                if a == 1 && b == 1 {
                    return Ok(0);
                }
            }
        }
        if let Some(x) = self.cache.get(&(op, a, b)) {
            return Ok(*x);
        }
        let (va, vb) = (self.var[a as usize], self.var[b as usize]);
        let v = va.min(vb);
        let (a0, a1) = if va == v { (self.lo[a as usize], self.hi[a as usize]) } else { (a, a) };
        let (b0, b1) = if vb == v { (self.lo[b as usize], self.hi[b as usize]) } else { (b, b) };
        let lo = self.apply(op, a0, b0)?;
        let hi = self.apply(op, a1, b1)?;
        let r = self.mk(v, lo, hi)?;
        if self.cache.len() > 4 * self.cap {
            self.cache.clear();
        }
        self.cache.insert((op, a, b), r);
        Ok(r)
    }
    /// An assignment (var -> value) that makes x true; x must not be 0.
    pub fn sat(&self, mut x: u32) -> Vec<(u32, bool)> {
        let mut r = vec![];
        while x > 1 {
            let i = x as usize;
            if self.hi[i] != 0 {
                r.push((self.var[i], true));
                x = self.hi[i];
            } else {
                r.push((self.var[i], false));
                x = self.lo[i];
            }
        }
        r
    }
}
