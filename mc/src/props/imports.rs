//! C10, C11, C12: imported files, malformed files, imperfect I/O.

use super::families::*;
use super::gen::*;
use crate::bristol::*;
use crate::explore::*;
use crate::model::*;
use circuit_converters::*;
use std::cell::RefCell;
use std::io::{self, BufRead, BufWriter, Read, Write};
use std::rc::Rc;

const OPS: &[Op] = &[Op::Inv, Op::Xor, Op::And, Op::Or, Op::Eq, Op::Eqw];

/// Any well-formed file with the given numbers of inputs and gates, apart from its groups and outputs.
fn gen_gates(ch: &mut Ch, n_in: usize, k: usize, ordered: bool) -> BFile {
    let w = n_in + k;
    let mut f = BFile { n_gates: k, n_wires: w, in_groups: vec![n_in], out_groups: vec![0], gates: vec![] };
    let mut defined: Vec<usize> = (0..n_in).collect();
    for _ in 0..k {
        let ops: Vec<Op> = OPS.iter().copied().filter(|o| *o == Op::Eq || !defined.is_empty()).collect();
        let op = ch.pick(&ops);
        let ins = match op {
            Op::Eq => vec![ch.choose(2)],
            _ if op.arity() == 1 => vec![ch.pick(&defined)],
            _ => {
                let a = ch.choose(defined.len());
                let b = if ordered { ch.choose(defined.len()) } else { a + ch.choose(defined.len() - a) };
                vec![defined[a], defined[b]]
            }
        };
        let free: Vec<usize> = (n_in..w).filter(|x| !defined.contains(x)).collect();
        let out = ch.pick(&free);
        defined.push(out);
        f.gates.push(BGate { op, ins, out });
        ch.state(&f.gates);
    }
    f
}

/// Compositions of n into exactly k parts, zero parts included.
fn compositions(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return if n == 0 { vec![vec![]] } else { vec![] };
    }
    let mut v = vec![];
    for first in 0..=n {
        for mut rest in compositions(n - first, k - 1) {
            let mut x = vec![first];
            x.append(&mut rest);
            v.push(x);
        }
    }
    v
}

fn groupings(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![n]];
    for k in 0..=max {
        for c in compositions(n, k) {
            if c != [n] {
                v.push(c);
            }
        }
    }
    v
}

/// Imports the text and compares with the function of f on all (or edge) assignments.
fn agrees(ch: &mut Ch, text: &str, f: &BFile) -> R {
    let c = import(text.as_bytes())?.map_err(|e| format!("a well-formed file is rejected: {}\n{}", e, clip_text(text)))?;
    ch.evals(1);
    computes(ch, &c, f, 0, &[]).map_err(|e| format!("{}\n{}", e, clip_text(text)))?;
    // a reader that has read a file with every operation before, into a circuit that is still in use
    if text.len() < 4000 {
        let mut r = BristolNXAOReader::new();
        let mut first = new_circ();
        import_into(&mut r, USED.as_bytes(), &mut first)?.map_err(|e| format!("a well-formed file is rejected: {}\n{}", e, USED))?;
        let mut c = new_circ();
        import_into(&mut r, text.as_bytes(), &mut c)?.map_err(|e| format!("a well-formed file is rejected by a reader used before: {}\n{}", e, clip_text(text)))?;
        ch.evals(1);
        computes(ch, &c, f, 0, &[]).map_err(|e| format!("by a reader used before: {}\n{}", e, clip_text(text)))?;
    }
    Ok(())
}

const USED: &str = "8 10\n1 2\n2 1 1\n\n1 1 0 2 EQ\n1 1 1 3 EQ\n1 1 0 4 INV\n2 1 4 1 5 XOR\n2 1 5 3 6 AND\n2 1 6 2 7 OR\n1 1 7 8 EQW\n2 1 1 4 9 AND\n";

/// Inputs `skip..` and outputs `before.len()..` of c are those of f.
fn computes(ch: &mut Ch, c: &Circ, f: &BFile, skip: usize, before: &[u64]) -> R {
    let (ni, no) = imp("a size", || (c.input_len(), c.output_len()))?;
    if ni != skip + f.n_in() || no != before.len() + f.n_out() {
        return Err(format!("the circuit has {} inputs and {} outputs, expected {} and {}", ni, no, skip + f.n_in(), before.len() + f.n_out()));
    }
    let n = ni;
    let vecs = assignments(n);
    let l = to_lanes(n, &vecs);
    let mut want: Vec<u64> = before.to_vec();
    want.extend(f.eval(&l[skip..]));
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for (k, v) in vecs.iter().enumerate() {
        let got = eval_with(&mut ev, v)?;
        compare(v, &got, &want, k as u32, "the imported circuit")?;
    }
    ch.evals(vecs.len() as u64);
    let m = if vecs.len() >= 64 { !0 } else { (1u64 << vecs.len()) - 1 };
    ch.outcome(&want.iter().map(|w| w & m).collect::<Vec<_>>());
    Ok(())
}

/// all assignments of up to six inputs, edge assignments of more
fn assignments(n: usize) -> Vec<Vec<bool>> {
    if n <= 6 {
        (0..1u64 << n).map(|k| bits(k, n)).collect()
    } else {
        vectors(n)
    }
}

/// The program as a file: wires numbered in one of several legal ways, outputs copied to the end.
fn file_of_prog(p: &Prog, numbering: usize) -> BFile {
    let n_in = p.n_in();
    let mut steps: Vec<(Op, Vec<usize>)> = vec![];
    // nodes: inputs first, then steps
    let mut node: Vec<usize> = vec![];
    let mut seen = 0;
    for s in &p.sigs {
        let at = |a: u32, node: &Vec<usize>| node[a as usize];
        let mut add = |op: Op, ins: Vec<usize>| {
            steps.push((op, ins));
            n_in + steps.len() - 1
        };
        let x = match *s {
            Sig::In => {
                seen += 1;
                seen - 1
            }
            Sig::Const(b) => add(Op::Eq, vec![b as usize]),
            Sig::Not(a) => add(Op::Inv, vec![at(a, &node)]),
            Sig::Xor(a, b) => add(Op::Xor, vec![at(a, &node), at(b, &node)]),
            Sig::And(a, b) => add(Op::And, vec![at(a, &node), at(b, &node)]),
            Sig::Or(a, b) => add(Op::Or, vec![at(a, &node), at(b, &node)]),
            Sig::Id(a) => add(Op::Eqw, vec![at(a, &node)]),
            Sig::Eqv(a, b) => {
                let x = add(Op::Xor, vec![at(a, &node), at(b, &node)]);
                add(Op::Inv, vec![x])
            }
            Sig::Call(..) => unreachable!(),
        };
        node.push(x);
    }
    let body = steps.len();
    for o in &p.outs {
        steps.push((Op::Eqw, vec![node[*o as usize]]));
    }
    let wire = |x: usize| -> usize {
        if x < n_in || x >= n_in + body {
            return x;
        }
        let i = x - n_in;
        n_in + match numbering {
            0 => i,
            1 => body - 1 - i,
            // even ones first
            _ => {
                if i % 2 == 0 {
                    i / 2
                } else {
                    (body + 1) / 2 + i / 2
                }
            }
        }
    };
    let gates = steps
        .iter()
        .enumerate()
        .map(|(i, (op, ins))| BGate { op: *op, ins: if *op == Op::Eq { ins.clone() } else { ins.iter().map(|x| wire(*x)).collect() }, out: wire(n_in + i) })
        .collect::<Vec<_>>();
    BFile { n_gates: gates.len(), n_wires: n_in + gates.len(), in_groups: vec![n_in], out_groups: vec![p.outs.len()], gates }
}

/// files used as bases for spelling and editing
fn bases() -> Vec<BFile> {
    let g = |op, ins: &[usize], out| BGate { op, ins: ins.to_vec(), out };
    vec![
        BFile { n_gates: 1, n_wires: 3, in_groups: vec![2], out_groups: vec![1], gates: vec![g(Op::Xor, &[0, 1], 2)] },
        BFile { n_gates: 3, n_wires: 5, in_groups: vec![1, 1], out_groups: vec![1, 1], gates: vec![g(Op::And, &[0, 1], 2), g(Op::Inv, &[2], 4), g(Op::Or, &[4, 0], 3)] },
        BFile { n_gates: 4, n_wires: 6, in_groups: vec![2], out_groups: vec![2], gates: vec![g(Op::Eq, &[1], 3), g(Op::Xor, &[0, 3], 2), g(Op::Eqw, &[1], 4), g(Op::And, &[2, 1], 5)] },
        BFile { n_gates: 2, n_wires: 5, in_groups: vec![1, 0, 2], out_groups: vec![3], gates: vec![g(Op::Inv, &[2], 4), g(Op::Or, &[1, 4], 3)] },
        BFile { n_gates: 11, n_wires: 13, in_groups: vec![1, 1], out_groups: vec![2], gates: (0..11).map(|i| if i % 2 == 0 { g(Op::Xor, &[i, i + 1], i + 2) } else { g(Op::Inv, &[i + 1], i + 2) }).collect() },
        BFile { n_gates: 2, n_wires: 2, in_groups: vec![], out_groups: vec![1], gates: vec![g(Op::Eq, &[0], 0), g(Op::Inv, &[0], 1)] },
        BFile { n_gates: 0, n_wires: 2, in_groups: vec![2], out_groups: vec![2], gates: vec![] },
    ]
}

pub fn c10(th: bool) -> Vec<Suite> {
    files(th, agrees)
}

/// C31, the files: importing builds no more gates and constants than the lines call for.
pub fn c31(th: bool) -> Vec<Suite> {
    let mut v = files(th, sized);
    v.retain(|s| ["files", "groups", "families"].contains(&&s.name[..]));
    v
}

/// Imports the text, alone and after another by the same reader, and counts.
fn sized(ch: &mut Ch, text: &str, f: &BFile) -> R {
    let n = |ops: &[Op]| f.gates.iter().filter(|g| ops.contains(&g.op)).count();
    let gates = n(&[Op::Inv, Op::Xor, Op::And, Op::Or]) + 2 * n(&[Op::Eqw]);
    let consts = n(&[Op::Eq]);
    let mut r = BristolNXAOReader::new();
    for what in ["", " by a reader used before"] {
        let mut c = new_circ();
        import_into(&mut r, text.as_bytes(), &mut c)?.map_err(|e| format!("a well-formed file is rejected{}: {}\n{}", what, e, clip_text(text)))?;
        let got = imp("a size", || (c.num_gate(), c.num_const(), c.num_wire()))?;
        if got.0 > gates || got.1 > consts || got.2 > f.n_in() + gates + consts {
            return Err(format!(
                "reading{} gives {} gates, {} constants and {} wires; the file calls for at most {}, {} and {}\n{}",
                what, got.0, got.1, got.2, gates, consts, f.n_in() + gates + consts, clip_text(text)
            ));
        }
        ch.outcome(&got);
    }
    ch.evals(2);
    Ok(())
}

fn files(th: bool, check: fn(&mut Ch, &str, &BFile) -> R) -> Vec<Suite> {
    let files = move |ch: &mut Ch| {
        let shapes: &[(usize, usize)] = if th { &[(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)] } else { &[(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2)] };
        let (n, k) = ch.pick(shapes);
        let mut f = gen_gates(ch, n, k, true);
        let m = {
            let w = f.n_wires;
            w - ch.choose(w + 1)
        };
        f.out_groups = vec![m];
        let text = f.text();
        ch.say(|| text.clone());
        debug_assert_eq!(classify(&text), Class::Valid(f.clone()));
        check(ch, &text, &f)
    };
    let groups = move |ch: &mut Ch| {
        let shapes: &[(usize, usize)] = if th { &[(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (2, 2)] } else { &[(0, 1), (1, 1), (2, 1), (3, 1), (4, 0)] };
        let (n, k) = ch.pick(shapes);
        let mut f = gen_gates(ch, n, k, false);
        f.in_groups = ch.pick(&groupings(n, 4));
        let m = f.n_wires - ch.choose(f.n_wires + 1);
        f.out_groups = ch.pick(&groupings(m, 3));
        let text = f.text();
        ch.say(|| text.clone());
        ch.state(&f);
        check(ch, &text, &f)
    };
    let spelling = move |ch: &mut Ch| {
        let bs = bases();
        let f = ch.pick(&bs);
        let gap = ch.pick(&[" ", "  ", "\t", " \t  "]);
        let lead = ch.pick(&["", " ", "\t"]);
        let trail = ch.pick(&["", " ", "  \t"]);
        let eol = ch.choose(4);
        let end = ch.choose(5);
        // one line is spelled differently from the others
        let odd = ch.choose(3 + f.gates.len() + 1);
        let mut rows: Vec<String> = f.text().lines().map(|l| l.to_string()).collect();
        let n = rows.len();
        let mut text = String::new();
        for (i, r) in rows.iter_mut().enumerate() {
            let plain = odd > 0 && (i == odd - 1 || i == odd);
            if !r.is_empty() && !plain {
                *r = format!("{}{}{}", lead, r.replace(' ', gap), trail);
            }
            text += r;
            if i + 1 < n || end > 0 {
                text += match eol {
                    0 => "\n",
                    1 => "\r\n",
                    2 if i % 2 == 0 => "\r\n",
                    3 if i % 2 == 1 => "\r\n",
                    _ => "\n",
                };
            }
        }
        for _ in 1..end {
            text += if eol == 1 { "\r\n" } else { "\n" };
        }
        // without a final line end the empty fourth line may be all there is of it
        if f.gates.is_empty() && end == 0 {
            text += "\n";
        }
        ch.state(&text);
        ch.say(|| format!("{:?}", text));
        check(ch, &text, &f)
    };
    let fams = move |ch: &mut Ch| {
        let mut all: Vec<(&'static Fam, usize)> = vec![];
        for f in PLAIN {
            for n in sizes(f.max, if th { 130 } else { 70 }) {
                all.push((f, n));
            }
        }
        all.sort_by_key(|x| x.1);
        let (fam, n) = ch.pick(&all);
        let numbering = if n > 2000 { 0 } else { ch.choose(3) };
        let (_, p) = (fam.make)(n);
        let mut f = file_of_prog(&p, numbering);
        // many groups
        let k = f.n_in();
        match if numbering == 0 || th { ch.choose(3) } else { 2 } {
            0 => {}
            1 => f.in_groups = vec![1; k],
            _ => {
                f.in_groups = vec![k / 2, 0, k - k / 2];
                let m = f.n_out();
                f.out_groups = vec![m - m / 3, m / 3];
            }
        }
        ch.state(&(fam.name, n, numbering, f.in_groups.len()));
        ch.say(|| format!("{}({}) numbered {}: {} gates", fam.name, n, numbering, f.n_gates));
        let text = f.text();
        check(ch, &text, &f)
    };
    let wide = move |ch: &mut Ch| {
        // many groups, wide groups, files without gates
        let k = ch.pick(&[0usize, 1, 2, 5, 10, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 40000]);
        let sz = ch.choose(4);
        let mut f = BFile { n_gates: 0, n_wires: 0, in_groups: (0..k).map(|i| [0, 1, 3, i % 4][sz]).collect(), out_groups: vec![], gates: vec![] };
        let n = f.n_in();
        f.n_wires = n;
        let m = [0, n, n / 2, n.min(1)][ch.choose(4)];
        f.out_groups = vec![1; m];
        if ch.flip() {
            f.out_groups = vec![m];
        }
        ch.state(&f);
        let text = f.text();
        ch.say(|| format!("{} input groups, {} inputs, {} outputs", k, n, m));
        check(ch, &text, &f)
    };
    vec![
        suite("files", "all well-formed files with up to 3 inputs and 3 gates (2 for two inputs or more; thorough 3 for two): every gate list over the six operations, every legal numbering of the wires, every number of outputs including input wires; all assignments; oracle: direct interpretation", files),
        suite("groups", "all groupings of up to 4 inputs into up to 4 groups and of the outputs into up to 3, empty groups included, over all files with up to one gate (thorough two)", groups),
        suite("spelling", "seven files spelled with every combination of gap, leading and trailing blanks, LF, CRLF and mixtures of both, with and without a final line end, up to 3 trailing blank lines, and each line spelled differently from the rest", spelling),
        suite("families", "scaling families up to 70000 gates as files in three legal wire numberings and three groupings", fams),
        suite("wide", "up to 40000 groups and up to 120000 inputs without gates", wide),
        suite("long lines", "three files with one gap, leading or trailing blank of 16 lengths around powers of two up to 70000, and 1 to 70000 blank lines at the end", move |ch| {
            let b = bases();
            let f = &b[ch.pick(&[0usize, 1, 2])];
            let text = f.text();
            let at: Vec<usize> = (0..=text.len()).filter(|i| *i == text.len() || text.as_bytes()[*i] == b' ' || text.as_bytes()[*i] == b'\n' || (*i > 0 && text.as_bytes()[*i - 1] == b'\n')).collect();
            let i = ch.pick(&at);
            let len = ch.pick(&[2usize, 63, 255, 256, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 70000]);
            let fill = if i == text.len() { "\n" } else { " " };
            let t = format!("{}{}{}", &text[..i], fill.repeat(len), &text[i..]);
            ch.state(&(i, len, &text));
            ch.say(|| format!("{} blanks at {} of {:?}", len, i, text));
            check(ch, &t, f)
        }),
    ]
}

// ---------------------------------------------------------------- C11

/// Judges the import of an arbitrary text; `whole`: the file it was cut from.
fn judge(ch: &mut Ch, text: &str, whole: Option<&BFile>) -> R {
    let res = import(text.as_bytes()).map_err(|e| format!("{}\n{}", e, clip_text(text)))?;
    ch.evals(1);
    let shown = || format!("{}\n{:?}", clip_text(text), clip_text(text));
    match classify(text) {
        Class::Valid(f) => {
            ch.outcome(&(1, f.n_in(), f.n_out()));
            let c = res.map_err(|e| format!("a well-formed file is rejected: {}\n{}", e, shown()))?;
            computes(ch, &c, &f, 0, &[]).map_err(|e| format!("{}\n{}", e, shown()))
        }
        Class::Malformed(why) => {
            ch.outcome(&why);
            if res.is_ok() {
                return Err(format!("a malformed file ({}) is accepted:\n{}", why, shown()));
            }
            Ok(())
        }
        Class::Loose(why, _) => {
            ch.outcome(&(why, res.is_ok()));
            // "EQW" cut to "EQ" is another legal operation
            let renamed = |w: &BFile| text.ends_with("EQ") && w.gates.get(text.lines().count().wrapping_sub(5)).map_or(false, |g| g.op == Op::Eqw);
            if let (Ok(c), Some(w)) = (&res, whole.filter(|w| !renamed(w))) {
                computes(ch, c, w, 0, &[]).map_err(|e| format!("a truncated file is misread: {}\n{}", e, shown()))?;
            }
            Ok(())
        }
    }
}

const WORDS: &[&str] = &["", "0", "1", "2", "3", "4", "5", "12", "13", "99", "-1", "1.0", "x", "0x1", "18446744073709551615", "18446744073709551616", "INV", "XOR", "AND", "OR", "EQ", "EQW", "NOT", "xor", "MAND", "XNOR", "\u{e9}"];

/// words that may stand where an input group's size stands (huge sizes are out of scope)
fn tame(text: &str) -> bool {
    let l = match text.split('\n').nth(1) {
        Some(l) => l,
        None => return true,
    };
    l.split_whitespace().skip(1).all(|t| t.len() < 6 || !t.bytes().all(|b| b.is_ascii_digit()))
}

fn tokens(text: &str) -> Vec<Vec<String>> {
    text.lines().map(|l| l.split(' ').map(|s| s.to_string()).collect()).collect()
}
fn untokens(v: &[Vec<String>]) -> String {
    v.iter().map(|l| l.iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>().join(" ") + "\n").collect()
}

/// One edit of a token: replaced, removed, doubled, or swapped with the next.
fn edit_token(ch: &mut Ch, t: &mut Vec<Vec<String>>) {
    let places: Vec<(usize, usize)> = t.iter().enumerate().flat_map(|(i, l)| (0..l.len()).map(move |j| (i, j))).collect();
    if places.is_empty() {
        return;
    }
    let (i, j) = ch.pick(&places);
    match ch.choose(WORDS.len() + 2) {
        k if k < WORDS.len() => t[i][j] = WORDS[k].to_string(),
        k if k == WORDS.len() => {
            let w = t[i][j].clone();
            t[i].insert(j, w);
        }
        _ => {
            if j + 1 < t[i].len() {
                t[i].swap(j, j + 1);
            } else {
                // joined with the next line
                if i + 1 < t.len() {
                    let mut n = t.remove(i + 1);
                    t[i].append(&mut n);
                }
            }
        }
    }
}

pub fn c11(th: bool) -> Vec<Suite> {
    let prefixes = move |ch: &mut Ch| {
        let (n, k) = ch.pick(if th { &[(0usize, 1usize), (1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1)] } else { &[(0usize, 1usize), (1, 1), (2, 1), (1, 2), (2, 2)] });
        let mut f = gen_gates(ch, n, k, false);
        let m = f.n_wires - ch.choose(f.n_wires + 1);
        f.out_groups = vec![m];
        let text = if ch.flip() { f.text() } else { f.text().replace('\n', "\r\n") };
        for cut in 0..text.len() {
            judge(ch, &text[..cut], Some(&f))?;
        }
        ch.say(|| format!("all {} proper prefixes of {:?}", text.len(), text));
        Ok(())
    };
    let prefixes2 = move |ch: &mut Ch| {
        let fams: Vec<&'static Fam> = PLAIN.iter().collect();
        let i = ch.choose(fams.len() + bases().len());
        let f = if i < fams.len() {
            let n = ch.pick(&[1usize, 2, 3, 7, 12, 20]);
            file_of_prog(&(fams[i].make)(n).1, ch.choose(3))
        } else {
            bases()[i - fams.len()].clone()
        };
        let text = f.text();
        for cut in 0..text.len() {
            judge(ch, &text[..cut], Some(&f))?;
        }
        ch.state(&f);
        ch.say(|| format!("all {} proper prefixes of {:?}", text.len(), text));
        Ok(())
    };
    let edits = move |ch: &mut Ch| {
        let bs = bases();
        let i = ch.choose(bs.len());
        let mut t = tokens(&bs[i].text());
        edit_token(ch, &mut t);
        if (th && i != 4) || i == 0 || i == 5 {
            if ch.flip() {
                edit_token(ch, &mut t);
            }
        }
        let text = untokens(&t);
        if !tame(&text) {
            return Ok(());
        }
        ch.state(&text);
        ch.say(|| text.clone());
        judge(ch, &text, None)
    };
    let lines = move |ch: &mut Ch| {
        let bs = bases();
        let f = ch.pick(&bs);
        let mut rows: Vec<String> = f.text().lines().map(|s| s.to_string()).collect();
        for _ in 0..if th { 3 } else { 2 } {
            if rows.is_empty() {
                break;
            }
            let i = ch.choose(rows.len());
            match ch.choose(5) {
                0 => {}
                1 => {
                    rows.remove(i);
                }
                2 => {
                    let j = ch.choose(rows.len());
                    rows.swap(i, j);
                }
                3 => {
                    let r = rows[i].clone();
                    rows.insert(i, r);
                }
                _ => rows.insert(i, ch.pick(&["", " ", "x", "0", "1 1", "1 1 0 0 INV", "2 1 0 0 2 XOR", "1 1 0 2 EQ", "0 0 XOR", "\u{2003}"]).to_string()),
            }
        }
        let text = rows.join("\n") + if ch.flip() { "" } else { "\n" };
        ch.state(&text);
        ch.say(|| text.clone());
        judge(ch, &text, None)
    };
    let chars = move |ch: &mut Ch| {
        let bs = bases();
        let f = ch.pick(&bs[..4]);
        let mut b: Vec<char> = f.text().chars().collect();
        for _ in 0..if th { 2 } else { 1 } {
            let i = ch.choose(b.len());
            const CS: &[char] = &['0', '1', '2', '9', ' ', '\n', '\r', '\t', '-', 'X', 'E', 'W', 'Q', '\0', '\u{e9}', '#', '.'];
            match ch.choose(3) {
                0 => {
                    b.remove(i);
                }
                1 => b[i] = ch.pick(CS),
                _ => b.insert(i, ch.pick(CS)),
            }
        }
        let text: String = b.into_iter().collect();
        if !tame(&text) {
            return Ok(());
        }
        ch.state(&text);
        ch.say(|| format!("{:?}", text));
        judge(ch, &text, None)
    };
    let gate_lines = move |ch: &mut Ch| {
        // every line of few words after a fixed header, and a last line that defines the output from it or not
        let len = ch.choose(if th { 8 } else { 7 });
        const W: &[&str] = &["1", "0", "2", "3", "INV", "XOR", "EQ", "-1"];
        let words: Vec<&str> = (0..len).map(|_| ch.pick(W)).collect();
        let line = words.join(" ");
        let text = match ch.choose(2) {
            0 => format!("1 3\n1 2\n1 1\n\n{}\n", line),
            _ => format!("2 4\n1 2\n1 1\n\n{}\n2 1 2 0 3 AND\n", line),
        };
        ch.count("lines", 1);
        judge(ch, &text, None)
    };
    let headers = move |ch: &mut Ch| {
        const W: &[&str] = &["1", "0", "2", "3", "x"];
        let mut head = String::new();
        for _ in 0..3 {
            let len = 3 - ch.choose(4);
            let words: Vec<&str> = (0..len).map(|_| ch.pick(W)).collect();
            head += &words.join(" ");
            head.push('\n');
        }
        for rest in ["\n", "\n1 1 0 1 INV\n", "\n2 1 0 1 2 XOR\n"] {
            judge(ch, &format!("{}{}", head, rest), None)?;
        }
        Ok(())
    };
    let bytes = move |ch: &mut Ch| {
        // bytes that are no text: no panic, and an error wherever a header or gate line is affected
        let bs = bases();
        let f = ch.pick(&bs);
        let mut b = f.text().into_bytes();
        let i = ch.choose(b.len());
        let x = ch.pick(&[0xffu8, 0xc3, 0x80, 0x00]);
        if ch.flip() {
            b.insert(i, x);
        } else {
            b[i] = x;
        }
        ch.state(&b);
        let _ = import(&b[..])?;
        ch.evals(1);
        Ok(())
    };
    vec![
        suite("prefixes", "all proper prefixes of all well-formed files with up to 2 inputs and 2 gates, every number of outputs, LF and CRLF; oracle: independent classification and interpretation", prefixes),
        suite("prefixes of larger files", "all proper prefixes of family members up to size 20 in three numberings", prefixes2),
        suite("token edits", "seven files with one word (two in some files; thorough: in most) replaced by each of 27 words, doubled, swapped or joined to the next line", edits),
        suite("line edits", "up to 2 (3) lines removed, doubled, swapped or inserted", lines),
        suite("character edits", "one (two) characters removed, replaced or inserted at every position", chars),
        suite("gate lines", "every gate line of up to 6 (7) words over 8 words, alone and followed by a gate that reads it", gate_lines),
        suite("headers", "all three header lines of up to 3 words over {0, 1, 2, 3, x}, with no gate or one of two", headers),
        suite("bytes", "bytes that are not UTF-8 and NUL at every position: no panic", bytes),
    ]
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Interrupted once before every piece
    Interrupts,
    /// an error of this kind instead of piece `.1`, and from then on if `.2`
    Err(io::ErrorKind, usize, bool),
}

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData];

/// A source that hands out the text in the given pieces.
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    /// ends of the pieces, ascending; the end of the data is implied
    cuts: Vec<usize>,
    fault: Fault,
    calls: usize,
    interrupted: bool,
    delivered: Rc<RefCell<usize>>,
}

impl BufRead for Pieces {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        match self.fault {
            Fault::None => {}
            Fault::Interrupts => {
                self.interrupted = !self.interrupted;
                if self.interrupted {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
            }
            Fault::Err(kind, at, for_good) => {
                self.calls += 1;
                if self.calls == at + 1 || (for_good && self.calls > at) {
                    *self.delivered.borrow_mut() += 1;
                    return Err(io::Error::new(kind, "injected"));
                }
            }
        }
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len()).min(self.data.len());
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

impl Read for Pieces {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

fn pieces(data: &[u8], cuts: Vec<usize>, fault: Fault) -> (Pieces, Rc<RefCell<usize>>) {
    let d = Rc::new(RefCell::new(0));
    (Pieces { data: data.to_vec(), pos: 0, cuts, fault, calls: 0, interrupted: false, delivered: d.clone() }, d)
}

/// A sink with a plan.
#[derive(Clone)]
struct Plan {
    /// at most this many bytes per call
    max: usize,
    interrupts: bool,
    /// (call, kind, from then on)
    fail: Option<(usize, Option<io::ErrorKind>, bool)>,
}

struct Sink {
    got: Rc<RefCell<Vec<u8>>>,
    errors: Rc<RefCell<usize>>,
    plan: Plan,
    calls: usize,
    interrupted: bool,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.plan.interrupts {
            self.interrupted = !self.interrupted;
            if self.interrupted {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
        }
        if let Some((at, kind, for_good)) = self.plan.fail {
            self.calls += 1;
            if self.calls == at + 1 || (for_good && self.calls > at) {
                *self.errors.borrow_mut() += 1;
                return match kind {
                    Some(k) => Err(io::Error::new(k, "injected")),
                    None => Ok(0),
                };
            }
        }
        let n = b.len().min(self.plan.max);
        self.got.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn export_subjects() -> Vec<(String, Circ, usize)> {
    let mut v = vec![];
    let lib = super::circuit::zoo();
    let mut p = Prog::inputs(2);
    let x = p.push(Sig::Xor(0, 1));
    p.outs = vec![x];
    v.push((vec![], p));
    let mut p = Prog::inputs(2);
    let c = p.push(Sig::Const(true));
    let a = p.push(Sig::And(0, c));
    let o = p.call(3, &lib, vec![a, 1]);
    p.outs = vec![o[0], 1, o[1]];
    v.push((lib, p));
    let (l, p) = (PLAIN[2].make)(40);
    v.push((l, p));
    let (l, p) = (PLAIN[6].make)(9);
    v.push((l, p));
    let mut r = vec![];
    for (lib, p) in v {
        let (c, _, _) = build_all(&lib, &p, How::Sub).expect("subject");
        r.push((p.show(), c, p.n_in()));
    }
    r
}

pub fn c12(th: bool) -> Vec<Suite> {
    let source_texts = move || -> Vec<(BFile, String)> {
        let mut v: Vec<(BFile, String)> = bases().into_iter().map(|f| (f.clone(), f.text())).collect();
        let f = bases()[1].clone();
        v.push((f.clone(), f.text().replace('\n', "\r\n")));
        let f = bases()[2].clone();
        v.push((f.clone(), f.text().trim_end().to_string()));
        let f = file_of_prog(&(PLAIN[2].make)(if th { 40 } else { 12 }).1, 1);
        v.push((f.clone(), f.text()));
        v
    };
    let reads = move |ch: &mut Ch| {
        let texts = source_texts();
        let (f, text) = ch.pick(&texts);
        let n = text.len();
        let cuts: Vec<usize> = match ch.choose(3) {
            0 => {
                let k = ch.range(1, n.min(40));
                (1..n).filter(|i| i % k == 0).collect()
            }
            1 => vec![ch.choose(n)],
            _ => {
                let a = ch.choose(n);
                let b = a + ch.choose(n - a);
                if th && n < 60 {
                    let c = b + ch.choose(n - b);
                    vec![a, b, c]
                } else {
                    vec![a, b]
                }
            }
        };
        let fault = if ch.flip() { Fault::Interrupts } else { Fault::None };
        ch.state(&(n, cuts.clone(), fault == Fault::None));
        let (src, _) = pieces(text.as_bytes(), cuts.clone(), fault);
        let c = import(src)?.map_err(|e| format!("the file is rejected ({}) when it arrives in pieces {:?} ({:?}):\n{}", e, cuts, fault, text))?;
        computes(ch, &c, &f, 0, &[]).map_err(|e| format!("read in pieces {:?} ({:?}): {}\n{}", cuts, fault, e, text))
    };
    let read_errors = move |ch: &mut Ch| {
        let texts = source_texts();
        let (f, text) = ch.pick(&texts);
        let n = text.len();
        let k = ch.pick(&[1usize, 2, 3, 5, 8, 13, 1000]);
        let cuts: Vec<usize> = (1..n).filter(|i| i % k == 0).collect();
        let calls = 2 * cuts.len() + 4;
        let kind = ch.pick(KINDS);
        let for_good = ch.flip();
        let at = ch.choose(calls);
        let (src, delivered) = pieces(text.as_bytes(), cuts, Fault::Err(kind, at, for_good));
        ch.state(&(n, k, at, format!("{:?}", kind), for_good));
        let r = import(src)?;
        ch.evals(1);
        let hit = *delivered.borrow() > 0;
        ch.outcome(&(hit, r.is_ok()));
        match r {
            Ok(c) => {
                if hit {
                    return Err(format!("an I/O error ({:?}) at read {} with pieces of {} bytes is swallowed:\n{}", kind, at, k, text));
                }
                computes(ch, &c, &f, 0, &[])
            }
            Err(e) => {
                if !hit {
                    return Err(format!("rejected without an I/O error: {}", e));
                }
                Ok(())
            }
        }
    };
    let reuse = move |ch: &mut Ch| {
        // files read in turn by one reader object
        let mut pool: Vec<(String, Option<BFile>)> = bases().into_iter().map(|f| (f.text(), Some(f))).collect();
        let full = bases()[1].text();
        pool.push((full[..full.len() - 8].to_string(), None));
        pool.push(("1 2\n1 1\n1 1\n\n2 1 0 3 1 XOR\n".into(), None));
        pool.push(("1 9\n1 2\n1 1\n\n2 1 0 1 2 XOR\n".into(), None));
        pool.push(("0 4\n1 1\n1 1\n\n".into(), None));
        pool.push(("1 4\n1 1\n1 1\n\n1 1 2 3 INV\n".into(), None));
        pool.push(("".into(), None));
        let mut r = BristolNXAOReader::new();
        // each into a circuit of its own, or all into one
        let one = ch.flip();
        let mut main = new_circ();
        let mut outs: Vec<(usize, BFile)> = vec![];
        let mut n_in = 0;
        let mut spoiled = false;
        for step in 0..if th { 5 } else { 4 } {
            let i = ch.choose(pool.len() + 1);
            // an I/O error in the middle
            let (text, f, fault) = if i == pool.len() { (full.clone(), None, Fault::Err(io::ErrorKind::Other, 5, true)) } else { (pool[i].0.clone(), pool[i].1.clone(), Fault::None) };
            let (src, _) = pieces(text.as_bytes(), (1..text.len()).collect(), fault);
            let mut c = if one { main.clone() } else { new_circ() };
            let res = import_into(&mut r, src, &mut c)?;
            ch.evals(1);
            ch.outcome(&(step, res.is_ok()));
            match (res, f) {
                (Err(e), Some(_)) => return Err(format!("read number {} of one reader rejects a good file: {}\n{}", step, e, text)),
                (Ok(_), None) => return Err(format!("read number {} of one reader accepts a bad file:\n{}", step, text)),
                (Err(_), None) => spoiled = true,
                (Ok(_), Some(f)) => {
                    if !one {
                        computes(ch, &c, &f, 0, &[]).map_err(|e| format!("read number {} of one reader: {}\n{}", step, e, text))?;
                    } else {
                        outs.push((if spoiled { imp("a size", || c.input_len())? - f.n_in() } else { n_in }, f.clone()));
                        n_in += f.n_in();
                    }
                }
            }
            if one {
                // every file read so far is where it was
                let n = imp("a size", || main.input_len())?;
                if !spoiled && n != n_in {
                    return Err(format!("{} inputs after reading files with {} in all", n, n_in));
                }
                let vecs = assignments(n);
                let l = to_lanes(n, &vecs);
                let mut want: Vec<u64> = vec![];
                for (at, f) in &outs {
                    want.extend(f.eval(&l[*at..*at + f.n_in()]));
                }
                let mut ev = NXAOBoolEvaluator::new(main.clone());
                for (k, v) in vecs.iter().enumerate() {
                    let got = eval_with(&mut ev, v)?;
                    compare(v, &got, &want, k as u32, "files read into one circuit")?;
                    ch.evals(1);
                }
            }
        }
        let _ = &mut main;
        ch.state(&ch.choices.clone());
        Ok(())
    };
    let onto = move |ch: &mut Ch| {
        // into a circuit with inputs, gates, modules, outputs
        let lib = super::circuit::zoo();
        let n = ch.choose(3);
        let mut p = Prog::inputs(n);
        let g = ch.choose(if th { 3 } else { 2 });
        for _ in 0..g {
            gen_gate(ch, &mut p, NAXC, false);
        }
        if n > 0 && ch.flip() {
            p.call(2, &lib, vec![0]);
        }
        if p.len() > 0 {
            for _ in 0..ch.choose(3) {
                let o = ch.choose(p.sigs.len());
                p.outs.push(o as u32);
            }
        }
        let bs = bases();
        let f = ch.pick(&bs);
        let (mut c, _, _) = build_all(&lib, &p, How::Sub)?;
        let text = f.text();
        let cut = ch.flip();
        let src = if cut { text[..text.len() * 2 / 3].to_string() } else { text.clone() };
        let mut r = BristolNXAOReader::new();
        let res = import_into(&mut r, src.as_bytes(), &mut c)?;
        ch.state(&(p.clone(), f.clone(), cut));
        let total = imp("a size", || c.input_len())?;
        let vecs = assignments(total);
        let l = to_lanes(total, &vecs);
        let before = eval_outs(&lib, &p, &l[..n]);
        if cut {
            if res.is_ok() && matches!(classify(&src), Class::Malformed(_)) {
                return Err(format!("a malformed file is accepted:\n{}", src));
            }
            let mut ev = NXAOBoolEvaluator::new(c.clone());
            for (k, v) in vecs.iter().enumerate() {
                let got = eval_with(&mut ev, v)?;
                if got.len() < before.len() {
                    return Err("a failed import removed outputs".into());
                }
                compare(v, &got[..before.len()], &before, k as u32, "the outputs declared before a failed import")?;
            }
            ch.evals(vecs.len() as u64);
            return Ok(());
        }
        res.map_err(|e| format!("importing into a circuit with gates failed: {}", e))?;
        computes(ch, &c, &f, n, &before).map_err(|e| format!("imported into {}: {}\n{}", p.show(), e, text))
    };
    let writes = move |ch: &mut Ch| {
        let subj = export_subjects();
        let (what, c, n) = ch.pick(&subj);
        let (full, consts) = export(&c, n)?;
        let len = full.len();
        let cap = ch.pick(if th { &[0usize, 1, 2, 7, 16, 64, 100, 8192][..] } else { &[0usize, 1, 7, 64, 8192][..] });
        let max = ch.pick(&[usize::MAX, 1, 2, 3, 7, 50]);
        let fault = ch.choose(2 + if th { KINDS.len() } else { 3 });
        let mut plan = Plan { max, interrupts: false, fail: None };
        // how many calls a good run makes at most
        let calls = len + 2;
        match fault {
            0 => {}
            1 => plan.interrupts = true,
            k => {
                let at = ch.choose(calls.min(if th { 500 } else { 160 }));
                let kind = if k == 2 { None } else { Some(KINDS[k - 3]) };
                plan.fail = Some((at, kind, ch.flip()));
            }
        }
        let got = Rc::new(RefCell::new(vec![]));
        let errors = Rc::new(RefCell::new(0));
        let sink = Sink { got: got.clone(), errors: errors.clone(), plan: plan.clone(), calls: 0, interrupted: false };
        let desc = || format!("buffer {}, at most {} bytes a write, fault {:?}, circuit {}", cap, max, plan.fail.map(|f| format!("{:?}", f)), what);
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, sink));
        let r = imp("export", || w.write(n, None))?;
        ch.evals(1);
        let during = *errors.borrow();
        let ok = r.is_ok();
        match r {
            Ok(k) => {
                if during > 0 {
                    return Err(format!("an I/O error while exporting is swallowed: {}", desc()));
                }
                if k != consts {
                    return Err(format!("other constants are returned: {}", desc()));
                }
                let fl = imp("flush", || w.writer.flush())?;
                if fl.is_ok() && got.borrow()[..] != *full.as_bytes() {
                    return Err(format!("export and flush succeeded but the sink has {} of {} bytes: {}", got.borrow().len(), len, desc()));
                }
                if fl.is_err() && *errors.borrow() == 0 {
                    return Err(format!("flush failed without an I/O error: {}", desc()));
                }
            }
            Err(e) => {
                if during == 0 {
                    return Err(format!("export failed without an I/O error ({}): {}", e, desc()));
                }
            }
        }
        if !full.as_bytes().starts_with(&got.borrow()[..]) {
            return Err(format!("the sink got something else than a prefix of the text: {}\n{}", desc(), String::from_utf8_lossy(&got.borrow())));
        }
        ch.outcome(&(ok, during, got.borrow().len()));
        ch.state(&(what.clone(), cap, max, plan.interrupts, format!("{:?}", plan.fail)));
        Ok(())
    };
    let write_again = move |ch: &mut Ch| {
        // one writer exports again after an export that failed or succeeded; the circuit may have grown
        let subj = export_subjects();
        let i = ch.choose(subj.len());
        let (_, c, n) = &subj[i];
        let at = ch.choose(if th { 60 } else { 24 });
        let got = Rc::new(RefCell::new(vec![]));
        let errors = Rc::new(RefCell::new(0));
        let sink = Sink { got: got.clone(), errors: errors.clone(), plan: Plan { max: 9, interrupts: false, fail: Some((at, Some(io::ErrorKind::Other), false)) }, calls: 0, interrupted: false };
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(0, sink));
        let first = imp("export", || w.write(*n, None))?;
        let mark = got.borrow().len();
        if first.is_ok() != (*errors.borrow() == 0) {
            return Err(format!("the result of the first export is {:?} after {} errors", first.is_ok(), errors.borrow()));
        }
        if ch.flip() {
            let mut g = c.clone();
            let x = imp("input", || g.input())?.map_err(|e| e.to_string())?;
            let y = imp("not", || g.not(&x))?.map_err(|e| e.to_string())?;
            imp("output", || g.output(y))?.map_err(|e| e.to_string())?;
        }
        let n2 = imp("a size", || c.input_len())?;
        let (want, wk) = export(c, n2)?;
        if first.is_ok() {
            // the fault may strike the second export
            let r = imp("export", || w.write(n2, None))?;
            let hit = *errors.borrow() > 0;
            if r.is_ok() == hit {
                return Err(format!("the result of the second export is ok={} after {} errors", r.is_ok(), errors.borrow()));
            }
            if !want.as_bytes().starts_with(&got.borrow()[mark..]) {
                return Err("the second export of one writer differs from a new writer's".into());
            }
            ch.outcome(&(1, hit));
        } else {
            let k = export_with(&mut w, n2)?;
            imp("flush", || w.writer.flush())?.map_err(|e| e.to_string())?;
            if k != wk || got.borrow()[mark..] != *want.as_bytes() {
                return Err(format!("after a failed export the same writer writes\n{}\ninstead of\n{}", String::from_utf8_lossy(&got.borrow()[mark..]), want));
            }
            ch.outcome(&2);
        }
        ch.evals(2);
        ch.state(&(i, at, n2));
        Ok(())
    };
    vec![
        suite("pieces", "ten texts handed out in pieces: every uniform size up to 40, every single cut, every pair (thorough: triple for short texts) of cuts, with and without an interruption before every piece", reads),
        suite("read errors", "an error of each of five kinds at every read, for one read or for good, with pieces of 7 sizes", read_errors),
        suite("reader reuse", "all sequences of 4 (5) files from 14 (good, malformed, truncated, empty, failing in the middle) through one reader object, into circuits of their own or all into one", reuse),
        suite("import onto", "seven files, whole and cut, into all circuits with up to 2 inputs, 1 (2) gates, a call and up to 2 outputs", onto),
        suite("write faults", "four circuits exported through buffers of 5 (8) capacities into sinks that accept 1 to all bytes a call, interrupt, or fail (with zero or an error of up to five kinds, once or for good) at every call", writes),
        suite("write again", "a second export by the same writer after a first that failed at every possible call or succeeded, the circuit grown in between or not", write_again),
    ]
}

// ---------------------------------------------------------------- C28

fn read_error<B: BufRead>(src: B) -> Result<Option<BristolError>, String> {
    let mut c = new_circ();
    imp("import", || BristolNXAOReader::new().read(src, &mut c)).map(|r| r.err())
}

fn io_named(e: &BristolError, kind: io::ErrorKind, message: Option<&str>, what: &str) -> R {
    match e {
        BristolError::IOError(x) if x.kind() == kind && message.map_or(true, |m| x.to_string() == m && e.to_string().contains(m)) => Ok(()),
        e => Err(format!("{}: an I/O error of kind {:?} was reported as {:?}", what, kind, e)),
    }
}

pub fn c28(th: bool) -> Vec<Suite> {
    // one fault put into a well-formed file
    fn faulty(ch: &mut Ch, f: &BFile, crlf: bool) -> R {
        let j = if f.gates.is_empty() { 3 } else { ch.choose(4) };
        let mut g = f.clone();
        let (text, want): (String, Vec<String>) = match j {
            0 => {
                // an operand that is not defined there: never, or by this or a later gate
                let at: Vec<(usize, usize)> = (0..f.gates.len()).filter(|i| f.gates[*i].op != Op::Eq).flat_map(|i| (0..f.gates[i].ins.len()).map(move |k| (i, k))).collect();
                if at.is_empty() {
                    return Ok(());
                }
                let (i, k) = ch.pick(&at);
                let mut w: Vec<usize> = f.gates[i..].iter().map(|x| x.out).collect();
                w.extend([f.n_wires, f.n_wires + 1, f.n_wires + 500, 1 << 40]);
                g.gates[i].ins[k] = ch.pick(&w);
                (g.text(), vec![format!("UnknownWire({})", g.gates[i].ins[k])])
            }
            1 => {
                let i = ch.choose(f.gates.len());
                let out = f.gates[i].out;
                g.gates.remove(i);
                let missed = g.gates.iter().any(|x| x.op != Op::Eq && x.ins.contains(&out)) || out >= f.n_wires - f.n_out();
                if !missed {
                    return Ok(());
                }
                (g.text(), vec![format!("UnknownWire({})", out)])
            }
            2 => {
                let i = ch.choose(f.gates.len());
                let word = ch.pick(&["NAND", "NOT", "xor", "Inv", "MAND", "EQX", "XORR", "1", "-", "\u{e9}"]);
                let text: Vec<String> = f.text().lines().enumerate().map(|(n, l)| if n == i + 4 { l.rsplit_once(' ').unwrap().0.to_string() + " " + word } else { l.to_string() }).collect();
                (text.join("\n") + "\n", vec![format!("NotSupportedGate({:?})", word)])
            }
            _ => {
                let k = ch.choose(3);
                let text: String = f.text().lines().take(k).map(|l| l.to_string() + "\n").collect();
                let text = if ch.flip() { text.trim_end().to_string() } else { text };
                (text, vec![format!("NotFoundLine({})", k + 1)])
            }
        };
        let text = if crlf { text.replace('\n', "\r\n") } else { text };
        ch.state(&text);
        ch.evals(1);
        ch.outcome(&want);
        match read_error(text.as_bytes())? {
            None => Err(format!("{} was not reported: {:?}", want[0], text)),
            Some(e) if want.contains(&format!("{:?}", e)) => {
                // the message holds what the variant holds
                let inner = want[0].split_once('(').unwrap().1.trim_end_matches(')').trim_matches('"');
                if !e.to_string().contains(inner) {
                    return Err(format!("the message {:?} does not name {}", e.to_string(), inner));
                }
                Ok(())
            }
            Some(e) => Err(format!("the error is {:?}, expected {}: {:?}", e, want[0], text)),
        }
    }
    let texts = move |ch: &mut Ch| {
        let (n, k) = ch.pick(if th { &[(0usize, 1usize), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)] } else { &[(0usize, 1usize), (1, 1), (2, 1), (1, 2), (2, 2)] });
        let mut f = gen_gates(ch, n, k, true);
        f.out_groups = vec![ch.choose(f.n_wires + 1)];
        faulty(ch, &f, false)
    };
    let larger = move |ch: &mut Ch| {
        let fams: Vec<&'static Fam> = PLAIN.iter().collect();
        let i = ch.choose(fams.len() + bases().len());
        let f = if i < fams.len() {
            let n = ch.pick(&[1usize, 2, 3, 7, 12, 20]);
            file_of_prog(&(fams[i].make)(n).1, ch.choose(3))
        } else {
            bases()[i - fams.len()].clone()
        };
        let crlf = ch.flip();
        faulty(ch, &f, crlf)
    };
    let sources = move |ch: &mut Ch| {
        let all = bases();
        let f = ch.pick(&all);
        let text = f.text();
        let k = ch.pick(&[1usize, 2, 5, 13, 1000]);
        let cuts: Vec<usize> = (1..text.len()).filter(|i| i % k == 0).collect();
        let at = ch.choose(2 * cuts.len() + 4);
        let kind = ch.pick(KINDS);
        let for_good = ch.flip();
        let (src, delivered) = pieces(text.as_bytes(), cuts, Fault::Err(kind, at, for_good));
        let r = read_error(src)?;
        ch.evals(1);
        ch.state(&(text.len(), k, at, format!("{:?}", kind), for_good));
        ch.outcome(&(r.is_none(), format!("{:?}", kind)));
        match r {
            Some(e) if *delivered.borrow() > 0 => io_named(&e, kind, Some("injected"), &format!("reading in pieces of {} bytes, error at read {}", k, at)),
            _ => Ok(()),
        }
    };
    let sinks = move |ch: &mut Ch| {
        let subj = export_subjects();
        let (what, c, n) = ch.pick(&subj);
        let cap = ch.pick(&[0usize, 1, 7, 64, 100]);
        let max = ch.pick(&[usize::MAX, 1, 7]);
        let k = ch.choose(KINDS.len() + 1);
        let kind = KINDS.get(k).copied();
        let at = ch.choose(if th { 400 } else { 120 });
        let plan = Plan { max, interrupts: false, fail: Some((at, kind, ch.flip())) };
        let errors = Rc::new(RefCell::new(0));
        let sink = Sink { got: Rc::new(RefCell::new(vec![])), errors: errors.clone(), plan, calls: 0, interrupted: false };
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, sink));
        let r = imp("export", || w.write(n, None))?;
        ch.evals(1);
        ch.state(&(what.clone(), cap, max, k, at));
        ch.outcome(&(r.is_ok(), k));
        match r {
            Err(e) if *errors.borrow() > 0 => io_named(&e, kind.unwrap_or(io::ErrorKind::WriteZero), kind.map(|_| "injected"), &format!("export of {} through a buffer of {}, error at write {}", what, cap, at)),
            _ => Ok(()),
        }
    };
    vec![
        suite("faulty files", "all files of up to 2 inputs and 2 gates (thorough: 3) with one fault: every operand replaced by a wire undefined there, every gate removed, every operation replaced by each of 10 words, the text ended after 0 to 2 lines: the error names the wire, the word or the line", texts),
        suite("faulty larger files", "the same for the scaling families at six sizes in three numberings and seven other files, LF and CRLF", larger),
        suite("failing sources", "an error of each of five kinds at every read, once or for good: the error returned has its kind and message", sources),
        suite("failing sinks", "an error of each of five kinds, or a write of nothing, at each of the first 120 (400) writes through buffers of five capacities: the error returned has its kind and message", sinks),
    ]
}
