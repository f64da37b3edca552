//! Stateless exhaustive explorer of choice trees.
//!
//! A suite is a deterministic function of the choices it asks for; the explorer runs it once for
//! every leaf of the choice tree (odometer order, subtrees shared out between threads).

use rustc_hash::{FxHashSet, FxHasher};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// `Err` is a violation of the property under check.
pub type R = Result<(), String>;

pub struct Suite {
    pub name: String,
    pub about: String,
    /// seconds one execution may take before it is judged not to terminate
    pub timeout_s: u64,
    pub body: Box<dyn Fn(&mut Ch) -> R + Send + Sync>,
}

pub fn suite<F: Fn(&mut Ch) -> R + Send + Sync + 'static>(name: &str, about: &str, body: F) -> Suite {
    Suite { name: name.into(), about: about.into(), timeout_s: 120, body: Box::new(body) }
}

#[derive(Default)]
pub struct Stats {
    pub leaves: u64,
    pub transitions: u64,
    pub evals: u64,
    pub extra_states: u64,
    pub states: FxHashSet<u64>,
    pub state_overflow: bool,
    pub outcomes: FxHashSet<u64>,
    pub known: BTreeMap<String, String>,
    pub counters: BTreeMap<String, u64>,
}

const STATE_CAP: usize = 6_000_000;

pub struct Ch {
    prefix: Vec<u32>,
    pub choices: Vec<u32>,
    arity: Vec<u32>,
    pub log: Option<Vec<String>>,
    pub st: Stats,
}

/// Thrown by the explorer itself; never a verdict.
pub struct EngineError(pub String);

impl Ch {
    fn new() -> Self {
        Ch { prefix: vec![], choices: vec![], arity: vec![], log: None, st: Stats::default() }
    }
    /// One of 0..n, all of which are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 {
            return 0;
        }
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            std::panic::panic_any(EngineError(format!(
                "divergence while replaying: point {} has {} choices, replaying {}",
                i, n, c
            )));
        }
        self.choices.push(c);
        self.arity.push(n as u32);
        c as usize
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Records a model state reached (for the count of distinct states).
    pub fn state<H: Hash>(&mut self, h: &H) {
        if self.st.states.len() >= STATE_CAP {
            self.st.state_overflow = true;
            return;
        }
        let mut f = FxHasher::default();
        h.hash(&mut f);
        self.st.states.insert(f.finish());
    }
    pub fn outcome<H: Hash>(&mut self, h: &H) {
        if self.st.outcomes.len() < 1_000_000 {
            let mut f = FxHasher::default();
            h.hash(&mut f);
            self.st.outcomes.insert(f.finish());
        }
    }
    /// n model executions replayed against the implementation
    pub fn evals(&mut self, n: u64) {
        self.st.evals += n;
    }
    /// n distinct model states (input valuations) visited without hashing
    pub fn add_states(&mut self, n: u64) {
        self.st.extra_states += n;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.st.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(l) = &mut self.log {
            let s = f();
            l.push(if s.len() > 1500 { format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), s.len()) } else { s });
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
    /// A failure that is listed in known-findings is noted and exploration goes on.
    pub fn known(&mut self, key: &str, msg: String) -> R {
        if KNOWN.get().map_or(false, |k| k.contains(&key.to_string())) {
            self.st.known.entry(key.to_string()).or_insert(msg);
            Ok(())
        } else {
            Err(msg)
        }
    }
}

pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(EngineError(s)) = p.downcast_ref::<EngineError>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs code of the implementation; a panic in it becomes an `Err`.
pub fn imp<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("{} panicked: {}", what, LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

thread_local! {
    static CLEANUP: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(vec![]);
}

/// Runs when this execution is over.
pub fn at_end<F: FnOnce() + 'static>(f: F) {
    CLEANUP.with(|c| c.borrow_mut().push(Box::new(f)));
}

/// Forgets what `at_end` was told so far.
pub fn keep() {
    CLEANUP.with(|c| c.borrow_mut().clear());
}

pub fn cleanup() {
    let v = CLEANUP.with(|c| std::mem::take(&mut *c.borrow_mut()));
    for f in v {
        let _ = catch_unwind(AssertUnwindSafe(f));
    }
}

pub enum RunEnd {
    Ok,
    Violation(String),
    Engine(String),
}

/// Runs one execution with the given choices (0 beyond them).
pub fn run_one(s: &Suite, prefix: &[u32], log: bool) -> (RunEnd, Ch) {
    let mut ch = Ch::new();
    ch.prefix = prefix.to_vec();
    if log {
        ch.log = Some(vec![]);
    }
    let end = run_body(s, &mut ch);
    (end, ch)
}

fn run_body(s: &Suite, ch: &mut Ch) -> RunEnd {
    let end = match catch_unwind(AssertUnwindSafe(|| (s.body)(ch))) {
        Ok(Ok(())) => RunEnd::Ok,
        Ok(Err(m)) => RunEnd::Violation(m),
        Err(_) => RunEnd::Engine(LAST_PANIC.with(|p| p.borrow().clone())),
    };
    cleanup();
    end
}

/// Shared-memory record of what each thread is running, read by the supervisor.
pub struct Slots {
    base: *mut u8,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const SLOT: usize = 4096;
const MAXC: usize = 1000;

impl Slots {
    pub fn open(path: &str, n: usize, create: bool) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path)?;
        if create {
            f.set_len((n * SLOT) as u64)?;
        }
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), n * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if base == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: base as *mut u8, n })
    }
    fn begin(&self, t: usize, suite: u32, prefix: &[u32]) {
        unsafe {
            let p = self.base.add(t * SLOT);
            (p.add(8) as *mut u64).write_volatile(0);
            (p.add(16) as *mut u32).write_volatile(suite);
            let n = prefix.len().min(MAXC);
            (p.add(20) as *mut u32).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), p.add(24) as *mut u32, n);
            (p.add(8) as *mut u64).write_volatile(now_ms());
        }
    }
    fn end(&self, t: usize) {
        unsafe { (self.base.add(t * SLOT).add(8) as *mut u64).write_volatile(0) }
    }
    /// (start_ms, suite, choices) of a running execution
    pub fn get(&self, t: usize) -> Option<(u64, usize, Vec<u32>)> {
        unsafe {
            let p = self.base.add(t * SLOT);
            let start = (p.add(8) as *mut u64).read_volatile();
            if start == 0 {
                return None;
            }
            let suite = (p.add(16) as *mut u32).read_volatile();
            let n = ((p.add(20) as *mut u32).read_volatile() as usize).min(MAXC);
            let mut v = vec![0u32; n];
            std::ptr::copy_nonoverlapping(p.add(24) as *const u32, v.as_mut_ptr(), n);
            Some((start, suite as usize, v))
        }
    }
}

pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<(String, Vec<u32>)>,
    pub engine_error: Option<String>,
    pub complete: bool,
    pub samples: Vec<Vec<u32>>,
    pub wall: f64,
}

struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    violation: Mutex<Option<(String, Vec<u32>)>>,
    engine: Mutex<Option<String>>,
}

pub fn explore(s: &Suite, suite_ix: usize, threads: usize, slots: &Slots, deadline: Instant, stack: usize) -> Outcome {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        violation: Mutex::new(None),
        engine: Mutex::new(None),
    };
    let mut all = Stats::default();
    let mut samples: Vec<Vec<u32>> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let sh = &sh;
            let h = std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(sc, move || worker(s, suite_ix, t, threads, slots, sh, deadline))
                .expect("cannot start a worker thread");
            hs.push(h);
        }
        for h in hs {
            match h.join() {
                Ok((st, sm)) => {
                    merge(&mut all, st);
                    samples.extend(sm);
                }
                Err(_) => *sh.engine.lock().unwrap() = Some("worker thread died".into()),
            }
        }
    });
    samples.sort();
    samples.dedup();
    let violation = sh.violation.into_inner().unwrap();
    let engine_error = sh.engine.into_inner().unwrap();
    let complete = violation.is_none() && engine_error.is_none() && !sh.capped.load(Ordering::SeqCst);
    Outcome { stats: all, violation, engine_error, complete, samples, wall: t0.elapsed().as_secs_f64() }
}

fn merge(a: &mut Stats, b: Stats) {
    a.leaves += b.leaves;
    a.transitions += b.transitions;
    a.evals += b.evals;
    a.extra_states += b.extra_states;
    a.state_overflow |= b.state_overflow;
    if a.states.is_empty() {
        a.states = b.states;
    } else {
        a.states.extend(b.states);
    }
    a.outcomes.extend(b.outcomes);
    for (k, v) in b.known {
        a.known.entry(k).or_insert(v);
    }
    for (k, v) in b.counters {
        *a.counters.entry(k).or_insert(0) += v;
    }
}

fn better(a: &[u32], b: &[u32]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn worker(s: &Suite, six: usize, t: usize, threads: usize, slots: &Slots, sh: &Shared, deadline: Instant) -> (Stats, Vec<Vec<u32>>) {
    let mut ch = Ch::new();
    let mut samples = vec![];
    let mut next_sample = 1u64;
    loop {
        // take a subtree
        let root = {
            let mut q = sh.queue.lock().unwrap();
            sh.idle.fetch_add(1, Ordering::SeqCst);
            loop {
                if sh.stop.load(Ordering::SeqCst) {
                    return (ch.st, samples);
                }
                if let Some(r) = q.pop() {
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                    break r;
                }
                if sh.idle.load(Ordering::SeqCst) == threads {
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    return (ch.st, samples);
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
            }
        };
        let mut base = root.len();
        let mut fresh = root.len().saturating_sub(1);
        ch.prefix = root;
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                return (ch.st, samples);
            }
            if ch.st.leaves % 16 == 0 && Instant::now() >= deadline {
                sh.capped.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                return (ch.st, samples);
            }
            ch.choices.clear();
            ch.arity.clear();
            slots.begin(t, six as u32, &ch.prefix);
            let end = run_body(s, &mut ch);
            slots.end(t);
            ch.st.leaves += 1;
            ch.st.transitions += (ch.choices.len() - fresh.min(ch.choices.len())) as u64;
            if ch.choices.len() < ch.prefix.len() {
                *sh.engine.lock().unwrap() = Some("divergence: the replayed execution has fewer choice points".into());
                sh.stop.store(true, Ordering::SeqCst);
            }
            match end {
                RunEnd::Ok => {}
                RunEnd::Violation(m) => {
                    let mut v = sh.violation.lock().unwrap();
                    if v.as_ref().map_or(true, |(_, c)| better(&ch.choices, c)) {
                        *v = Some((m, ch.choices.clone()));
                    }
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    return (ch.st, samples);
                }
                RunEnd::Engine(m) => {
                    *sh.engine.lock().unwrap() = Some(format!("{} at {:?}", m, ch.choices));
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    return (ch.st, samples);
                }
            }
            if ch.st.leaves >= next_sample && samples.len() < 12 {
                samples.push(ch.choices.clone());
                next_sample *= 7;
            }
            // give away the shallowest open alternatives if somebody waits
            if sh.idle.load(Ordering::Relaxed) > 0 {
                if let Some(i) = (base..ch.choices.len()).find(|&i| ch.choices[i] + 1 < ch.arity[i]) {
                    let mut q = sh.queue.lock().unwrap();
                    for alt in (ch.choices[i] + 1..ch.arity[i]).rev() {
                        let mut p = ch.choices[..i].to_vec();
                        p.push(alt);
                        q.push(p);
                    }
                    base = i + 1;
                    sh.cv.notify_all();
                }
            }
            // next leaf of this subtree
            match (base..ch.choices.len()).rev().find(|&i| ch.choices[i] + 1 < ch.arity[i]) {
                None => break,
                Some(i) => {
                    let mut p = ch.choices[..i].to_vec();
                    p.push(ch.choices[i] + 1);
                    fresh = i;
                    ch.prefix = p;
                }
            }
        }
    }
}

/// Runs a body on every leaf of its choice tree, on this thread.
pub fn enumerate(body: &dyn Fn(&mut Ch) -> R) {
    let mut ch = Ch::new();
    loop {
        ch.choices.clear();
        ch.arity.clear();
        body(&mut ch).expect("enumeration");
        match (0..ch.choices.len()).rev().find(|&i| ch.choices[i] + 1 < ch.arity[i]) {
            None => return,
            Some(i) => {
                let mut p = ch.choices[..i].to_vec();
                p.push(ch.choices[i] + 1);
                ch.prefix = p;
            }
        }
    }
}
