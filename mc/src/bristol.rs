//! Independent reading of Bristol Fashion texts: classification, interpretation, and import/export
//! through the implementation.

use crate::explore::imp;
use crate::model::*;
use circuit_converters::*;
use std::io::{BufRead, BufWriter};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Inv,
    Xor,
    And,
    Or,
    Eq,
    Eqw,
}

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Inv => "INV",
            Op::Xor => "XOR",
            Op::And => "AND",
            Op::Or => "OR",
            Op::Eq => "EQ",
            Op::Eqw => "EQW",
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        Some(match s {
            "INV" => Op::Inv,
            "XOR" => Op::Xor,
            "AND" => Op::And,
            "OR" => Op::Or,
            "EQ" => Op::Eq,
            "EQW" => Op::Eqw,
            _ => return None,
        })
    }
    pub fn arity(self) -> usize {
        match self {
            Op::Xor | Op::And | Op::Or => 2,
            _ => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct BGate {
    pub op: Op,
    /// wires, or the literal of EQ
    pub ins: Vec<usize>,
    pub out: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct BFile {
    pub n_gates: usize,
    pub n_wires: usize,
    pub in_groups: Vec<usize>,
    pub out_groups: Vec<usize>,
    pub gates: Vec<BGate>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Class {
    /// a complete well-formed file
    Valid(BFile),
    /// must be reported as an error
    Malformed(String),
    /// not well formed in a way the properties say nothing about, except that nothing panics;
    /// the file, if one can be read off it, is what a tolerant reading denotes
    Loose(String, Option<BFile>),
}

impl BFile {
    pub fn n_in(&self) -> usize {
        self.in_groups.iter().sum()
    }
    pub fn n_out(&self) -> usize {
        self.out_groups.iter().sum()
    }
    /// the classic spelling
    pub fn text(&self) -> String {
        let g = |v: &[usize]| {
            let mut s = v.len().to_string();
            for x in v {
                s += &format!(" {}", x);
            }
            s
        };
        let mut s = format!("{} {}\n{}\n{}\n\n", self.n_gates, self.n_wires, g(&self.in_groups), g(&self.out_groups));
        for x in &self.gates {
            s += &x.line();
            s.push('\n');
        }
        s
    }
    /// Output lanes for input lanes; the file must be one whose wires are all defined before use.
    pub fn eval(&self, ins: &[u64]) -> Vec<u64> {
        let o = self.n_out();
        self.eval_wires(ins)[self.n_wires - o..self.n_wires].to_vec()
    }
    /// Lanes of all wires.
    pub fn eval_wires(&self, ins: &[u64]) -> Vec<u64> {
        let mut w = vec![0u64; self.n_wires.max(self.n_in())];
        w[..ins.len()].copy_from_slice(ins);
        for g in &self.gates {
            let v = match g.op {
                Op::Inv => !w[g.ins[0]],
                Op::Xor => w[g.ins[0]] ^ w[g.ins[1]],
                Op::And => w[g.ins[0]] & w[g.ins[1]],
                Op::Or => w[g.ins[0]] | w[g.ins[1]],
                Op::Eq => {
                    if g.ins[0] == 1 {
                        !0
                    } else {
                        0
                    }
                }
                Op::Eqw => w[g.ins[0]],
            };
            if g.out >= w.len() {
                w.resize(g.out + 1, 0);
            }
            w[g.out] = v;
        }
        w
    }
}

impl BGate {
    pub fn line(&self) -> String {
        let mut s = format!("{} 1", self.ins.len());
        for i in &self.ins {
            s += &format!(" {}", i);
        }
        s + &format!(" {} {}", self.out, self.op.name())
    }
}

/// Lines the way every line-based reader sees them: split at LF, one CR before it dropped, and no
/// last empty line after a final LF.
fn lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    let n = v.len();
    v.iter()
        .enumerate()
        .map(|(i, l)| {
            if i + 1 < n || text.ends_with('\n') {
                l.strip_suffix('\r').unwrap_or(l)
            } else {
                l
            }
        })
        .collect()
}

fn num(s: &str) -> Option<usize> {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

pub fn classify(text: &str) -> Class {
    use Class::*;
    let l = lines(text);
    let bad = |s: &str| Malformed(s.to_string());
    let mut loose: Option<String> = None;
    if l.len() < 4 {
        return bad("a header line is missing");
    }
    let t1: Vec<&str> = l[0].split_whitespace().collect();
    if t1.len() < 2 {
        return bad("line 1 lacks a number");
    }
    let (n_gates, n_wires) = match (num(t1[0]), num(t1[1])) {
        (Some(a), Some(b)) => (a, b),
        _ => return bad("line 1 lacks a number"),
    };
    if t1.len() > 2 {
        loose.get_or_insert("line 1 has more than two numbers".into());
    }
    let mut groups = vec![];
    for i in [1, 2] {
        let t: Vec<&str> = l[i].split_whitespace().collect();
        let k = match t.first().and_then(|x| num(x)) {
            Some(k) => k,
            None => return bad("a group line lacks its count"),
        };
        if t.len() - 1 < k {
            return bad("a group line lacks a size");
        }
        let mut v = vec![];
        for x in &t[1..1 + k] {
            match num(x) {
                Some(n) => v.push(n),
                None => return bad("a group size is not a number"),
            }
        }
        if t.len() - 1 > k {
            loose.get_or_insert("a group line has too many sizes".into());
        }
        groups.push(v);
    }
    let out_groups = groups.pop().unwrap();
    let in_groups = groups.pop().unwrap();
    let n_in: usize = in_groups.iter().sum();
    let n_out = match out_groups.iter().try_fold(0usize, |a, b| a.checked_add(*b)) {
        Some(n) => n,
        None => return bad("more outputs than wires"),
    };
    if n_out > n_wires {
        return bad("more outputs than wires");
    }
    if !l[3].is_empty() {
        return Loose("line 4 is not empty".into(), None);
    }
    // gate lines up to the first empty line
    let mut gates = vec![];
    let mut defined: std::collections::HashSet<usize> = (0..n_in).collect();
    if n_in > n_wires {
        loose.get_or_insert("more inputs than wires".into());
    }
    let mut rest = l[4..].iter();
    for line in rest.by_ref() {
        if line.is_empty() {
            break;
        }
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            return bad("a gate line has no fields");
        }
        if t.len() < 3 {
            return bad("a gate line lacks fields");
        }
        let (a, b) = match (num(t[0]), num(t[1])) {
            (Some(a), Some(b)) => (a, b),
            _ => return bad("a gate line lacks its operand counts"),
        };
        let total = match a.checked_add(b).and_then(|x| x.checked_add(3)) {
            Some(x) => x,
            None => return bad("a gate line lacks fields"),
        };
        if t.len() < total {
            return bad("a gate line lacks fields");
        }
        let mut ws = vec![];
        for x in &t[2..2 + a + b] {
            match num(x) {
                Some(n) => ws.push(n),
                None => return bad("a wire is not a number"),
            }
        }
        let op = match Op::parse(t[2 + a + b]) {
            Some(o) => o,
            None => return bad("unknown operation"),
        };
        if a != op.arity() || b != 1 {
            return bad("wrong number of operands");
        }
        if t.len() > total {
            loose.get_or_insert("a gate line has too many fields".into());
        }
        let out = ws[a];
        ws.truncate(a);
        if op == Op::Eq {
            if ws[0] > 1 {
                loose.get_or_insert("EQ of something else than 0 or 1".into());
            }
        } else if ws.iter().any(|w| !defined.contains(w)) {
            return bad("a gate reads an undefined wire");
        }
        if out >= n_wires {
            loose.get_or_insert("a wire outside the header's range".into());
        }
        if !defined.insert(out) {
            loose.get_or_insert("a wire is defined twice".into());
        }
        gates.push(BGate { op, ins: ws, out });
    }
    for line in rest {
        if !line.is_empty() {
            loose.get_or_insert("text after an empty line".into());
        }
    }
    if (n_wires - n_out..n_wires).any(|w| !defined.contains(&w)) {
        // a tolerant reader of text after an empty line could still define it
        if loose.as_deref() == Some("text after an empty line") {
            return Loose("text after an empty line".into(), None);
        }
        return bad("an output wire is undefined");
    }
    if gates.len() != n_gates {
        loose.get_or_insert("the gate count is not the header's".into());
    }
    if loose.is_none() && (0..n_wires).any(|w| !defined.contains(&w)) {
        loose = Some("a wire is never defined".into());
    }
    let f = BFile { n_gates, n_wires, in_groups, out_groups, gates };
    match loose {
        None => Valid(f),
        Some(s) => {
            let readable = !f.gates.iter().any(|g| g.op == Op::Eq && g.ins[0] > 1);
            Loose(s, if readable { Some(f) } else { None })
        }
    }
}

/// Imports the text into an empty circuit. Outer error: panic. Inner: the reported error.
pub fn import<B: BufRead>(src: B) -> Result<Result<Circ, String>, String> {
    let mut c = new_circ();
    let mut r = BristolNXAOReader::new();
    let res = import_into(&mut r, src, &mut c)?;
    Ok(res.map(|_| c))
}

pub fn import_into<B: BufRead>(r: &mut BristolNXAOReader, src: B, c: &mut Circ) -> Result<Result<(), String>, String> {
    Ok(imp("import", || r.read(src, c))?.map_err(|e| e.to_string()))
}

/// Exports with a large buffer into memory.
pub fn export(c: &Circ, first: usize) -> Result<(String, Vec<bool>), String> {
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let consts = export_with(&mut w, first)?;
    let bytes = imp("flush", || w.writer.into_inner())?.map_err(|e| format!("flush failed: {}", e))?;
    Ok((String::from_utf8(bytes).map_err(|_| "the exported text is not UTF-8")?, consts))
}

pub fn export_with<W: std::io::Write>(w: &mut BristolNXAOWriter<W>, first: usize) -> Result<Vec<bool>, String> {
    imp("export", || w.write(first, None))?.map_err(|e| format!("export failed: {}", e))
}

pub fn valid(text: &str, what: &str) -> Result<BFile, String> {
    match classify(text) {
        Class::Valid(f) => Ok(f),
        Class::Malformed(m) | Class::Loose(m, _) => Err(format!("{} is not well formed: {}\n{}", what, m, clip_text(text))),
    }
}

pub fn clip_text(t: &str) -> String {
    if t.len() > 600 {
        format!("{}…({} bytes)", t.chars().take(600).collect::<String>(), t.len())
    } else {
        t.to_string()
    }
}
