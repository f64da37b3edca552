#![allow(dead_code)]
mod explore;
use explore::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

mod bdd;
mod bristol;
mod comb;
mod model;
mod netlist;
mod props;
mod refs;

const VERIF: &str = env!("CARGO_MANIFEST_DIR");

fn verif_dir() -> String {
    std::path::Path::new(VERIF).parent().unwrap().to_string_lossy().into_owned()
}

struct Tier {
    thorough: bool,
    /// hard cap of an engine run
    cap_s: u64,
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier { thorough: false, cap_s: 600 },
        "thorough" => Tier { thorough: true, cap_s: 3000 },
        _ => panic!("tier must be quick or thorough"),
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
    })
}

const STACK: usize = 1 << 30;

fn limit_as(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn load_known(prop: &str) {
    // lines "known: property=<id> key=<key> <what fails>"
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let mut keys = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let f: Vec<&str> = rest.split_whitespace().collect();
            if f.len() >= 2 && f[0] == format!("property={}", prop) {
                if let Some(k) = f[1].strip_prefix("key=") {
                    keys.push(k.to_string());
                }
            }
        }
    }
    let _ = KNOWN.set(keys);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match args.get(1).copied() {
        Some("check") => check(args[2], args[3]),
        Some("engine") => engine(args[2], args[3], args[4], args[5], args.get(6).copied()),
        Some("one") => one(args[2], args[3], args[4].parse().unwrap(), args[5], args[6]),
        Some("replay") => replay(args[2]),
        Some("suites") => {
            for p in props::ALL {
                for s in props::suites(p, false) {
                    println!("{}\t{}\t{}", p, s.name, s.about);
                }
            }
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn show_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// Child process: explores every suite of a property.
fn engine(prop: &str, tier_s: &str, slots: &str, out: &str, only: Option<&str>) -> i32 {
    install_panic_hook();
    limit_as(26 << 30);
    load_known(prop);
    let t = tier(tier_s);
    let n = threads();
    let slots = Slots::open(slots, n, false).expect("slots");
    let deadline = Instant::now() + Duration::from_secs(t.cap_s);
    let suites = props::suites(prop, t.thorough);
    let mut results = vec![];
    for (ix, s) in suites.iter().enumerate() {
        if let Some(o) = only {
            if !s.name.contains(o) {
                continue;
            }
        }
        let o = explore(s, ix, n, &slots, deadline, STACK);
        let mut samples = vec![];
        if o.violation.is_none() && o.engine_error.is_none() {
            // written-out executions; each is replayed twice and must behave identically
            let pick: Vec<Vec<u32>> = {
                let k = o.samples.len();
                let mut v = vec![];
                for i in [0, k / 2, k.saturating_sub(1)] {
                    if i < k && !v.contains(&o.samples[i]) {
                        v.push(o.samples[i].clone());
                    }
                }
                v
            };
            for c in pick {
                let (a, b) = on_big_stack(|| {
                    let (_, x) = run_one(s, &c, true);
                    let (_, y) = run_one(s, &c, true);
                    (x, y)
                });
                if a.choices != b.choices || a.log != b.log {
                    eprintln!("engine error: {} is not deterministic at {:?}\n{:?}\n{:?}", s.name, c, a.log, b.log);
                    return 2;
                }
                samples.push(json!({"suite": s.name, "choices": show_choices(&a.choices), "trace": a.log}));
            }
        }
        results.push(json!({
            "suite": s.name, "about": s.about,
            "executions": o.stats.leaves, "transitions": o.stats.transitions,
            "distinct_states": o.stats.states.len() as u64 + o.stats.extra_states,
            "states_are_a_lower_bound": o.stats.state_overflow,
            "traces_validated_against_impl": o.stats.evals,
            "distinct_outcomes": o.stats.outcomes.len(),
            "counters": o.stats.counters,
            "complete": o.complete, "wall_s": o.wall,
            "samples": samples,
            "known": o.stats.known,
            "violation": o.violation.as_ref().map(|(m, c)| json!({"suite_ix": ix, "suite": s.name, "message": m, "choices": show_choices(c)})),
            "engine_error": o.engine_error,
        }));
        eprintln!(
            "[{} {}] {} executions, {} transitions, {} states, {} impl traces, {} outcomes, {:.1}s{}",
            prop, s.name, o.stats.leaves, o.stats.transitions,
            o.stats.states.len() as u64 + o.stats.extra_states, o.stats.evals, o.stats.outcomes.len(), o.wall,
            if o.complete { "" } else { " (incomplete)" }
        );
        if !o.stats.counters.is_empty() {
            eprintln!("    {:?}", o.stats.counters);
        }
        let stop = o.violation.is_some() || o.engine_error.is_some();
        std::fs::write(out, serde_json::to_string(&results).unwrap()).unwrap();
        if stop {
            break;
        }
    }
    0
}

fn on_big_stack<T: Send, F: FnOnce() -> T + Send>(f: F) -> T
where
{
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, f).unwrap().join().unwrap())
}

/// Child process: one execution. Exit 0 = held, 1 = violated, 3 = engine error.
fn one(prop: &str, tier_s: &str, six: usize, choices: &str, out: &str) -> i32 {
    install_panic_hook();
    limit_as(12 << 30);
    load_known(prop);
    let t = tier(tier_s);
    let suites = props::suites(prop, t.thorough);
    let c = parse_choices(choices);
    on_big_stack(move || {
        let (end, ch) = run_one(&suites[six], &c, true);
        let log = ch.log.clone().unwrap_or_default();
        let (code, msg) = match end {
            RunEnd::Ok => (0, String::new()),
            RunEnd::Violation(m) => (1, m),
            RunEnd::Engine(m) => (3, m),
        };
        let _ = std::fs::write(out, json!({"choices": show_choices(&ch.choices), "trace": log, "message": msg}).to_string());
        code
    })
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

enum OneEnd {
    Held,
    Violated(Value),
    Error(String),
}

/// Runs one execution in a process of its own; a crash or a hang of it is a violation.
fn confirm(prop: &str, tier_s: &str, six: usize, choices: &[u32], timeout: u64, scratch: &str) -> OneEnd {
    let out = format!("{}/one.json", scratch);
    let _ = std::fs::remove_file(&out);
    let mut ch = match self_cmd()
        .args(["one", prop, tier_s, &six.to_string(), &show_choices(choices), &out])
        .stdout(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return OneEnd::Error(e.to_string()),
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let v: Value = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
                return match st.code() {
                    Some(0) => OneEnd::Held,
                    Some(1) => OneEnd::Violated(v),
                    Some(c) => OneEnd::Error(format!("exit {}: {}", c, v["message"])),
                    None => {
                        use std::os::unix::process::ExitStatusExt;
                        OneEnd::Violated(json!({"message": format!("the process died (signal {:?}): stack overflow, abort or memory exhaustion", st.signal()), "choices": show_choices(choices)}))
                    }
                };
            }
            Ok(None) => {}
            Err(e) => return OneEnd::Error(e.to_string()),
        }
        if t0.elapsed().as_secs() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return OneEnd::Violated(json!({"message": format!("no result after {} s: does not terminate", timeout), "choices": show_choices(choices)}));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn check(prop: &str, tier_s: &str) -> i32 {
    let t0 = Instant::now();
    let t = tier(tier_s);
    if !props::ALL.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = format!("{}/target/run-{}-{}", VERIF, prop, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let code = check_in(prop, tier_s, &t, seed, t0, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in(prop: &str, tier_s: &str, t: &Tier, seed: i64, t0: Instant, scratch: &str) -> i32 {
    let slots_path = format!("{}/slots", scratch);
    let out = format!("{}/out.json", scratch);
    let n = threads();
    let slots = Slots::open(&slots_path, n, true).expect("slots");
    let suites = props::suites(prop, t.thorough);
    let mut child = self_cmd();
    child.args(["engine", prop, tier_s, &slots_path, &out]);
    if let Ok(o) = std::env::var("MC_ONLY") {
        child.arg(o);
    }
    let mut child = child.stdout(Stdio::null()).spawn().expect("engine");
    let mut verdict: Option<(usize, Value)> = None;
    let mut error: Option<String> = None;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            if !st.success() {
                // a crash: which of the running executions does it by itself?
                let mut any = false;
                for i in 0..n {
                    if let Some((_, six, c)) = slots.get(i) {
                        if six >= suites.len() {
                            continue;
                        }
                        if let OneEnd::Violated(v) = confirm(prop, tier_s, six, &c, suites[six].timeout_s, scratch) {
                            verdict = Some((six, v));
                            any = true;
                            break;
                        }
                    }
                }
                if !any {
                    error = Some(format!("the engine ended with {:?} and no single execution reproduces it", st));
                }
            }
            break;
        }
        let now = now_ms();
        let mut hung = None;
        for i in 0..n {
            if let Some((start, six, c)) = slots.get(i) {
                if six < suites.len() && now.saturating_sub(start) > suites[six].timeout_s * 1000 {
                    hung = Some((six, c));
                }
            }
        }
        if let Some((six, c)) = hung {
            let _ = child.kill();
            let _ = child.wait();
            match confirm(prop, tier_s, six, &c, suites[six].timeout_s, scratch) {
                OneEnd::Violated(v) => verdict = Some((six, v)),
                OneEnd::Held => error = Some(format!("{}: {:?} was slow in the engine but not alone", suites[six].name, c)),
                OneEnd::Error(e) => error = Some(e),
            }
            break;
        }
        if t0.elapsed().as_secs() > t.cap_s + 200 {
            let _ = child.kill();
            let _ = child.wait();
            error = Some("the engine ran over its cap".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
    }
    let results: Vec<Value> = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    for r in &results {
        if let Some(e) = r["engine_error"].as_str() {
            error = Some(format!("{}: {}", r["suite"], e));
        }
        if r["violation"].is_object() && verdict.is_none() {
            verdict = Some((r["violation"]["suite_ix"].as_u64().unwrap() as usize, r["violation"].clone()));
        }
    }
    if verdict.is_none() && error.is_none() && results.is_empty() {
        error = Some("no results".into());
    }
    let meta = props::meta(prop);
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let exhaustive = results.iter().all(|r| r["complete"].as_bool().unwrap_or(false) && r["counters"]["bdd_over_cap"].is_null());
    let mut samples: Vec<Value> = vec![];
    for r in &results {
        if let Some(a) = r["samples"].as_array() {
            samples.extend(a.iter().take(2).cloned());
        }
    }
    let suites_ev: Vec<Value> = results
        .iter()
        .map(|r| {
            let mut r = r.clone();
            let o = r.as_object_mut().unwrap();
            o.remove("samples");
            o.remove("known");
            if o["violation"].is_null() {
                o.remove("violation");
            }
            o.remove("engine_error");
            r
        })
        .collect();
    let mut cov = json!({
        "samples": samples,
        "suites": suites_ev,
        "exhaustive": exhaustive,
        "explanation": meta.explanation,
    });
    let o = cov.as_object_mut().unwrap();
    if meta.level == "fault_enumeration" {
        o.insert("evaluations".into(), json!(sum("executions")));
        o.insert("distinct_nontrivial".into(), json!(sum("distinct_states")));
        o.insert("rule".into(), json!(meta.rule));
        o.insert("traces_validated_against_impl".into(), json!(sum("traces_validated_against_impl")));
    } else {
        o.insert("states".into(), json!(sum("distinct_states")));
        o.insert("transitions".into(), json!(sum("transitions").max(sum("executions"))));
        o.insert("traces_validated_against_impl".into(), json!(sum("traces_validated_against_impl")));
    }
    let mut knowns = std::collections::BTreeMap::new();
    for r in &results {
        if let Some(k) = r["known"].as_object() {
            for (a, b) in k {
                knowns.entry(a.clone()).or_insert(b.as_str().unwrap_or("").to_string());
            }
        }
    }
    let violations = if verdict.is_some() { 1 } else { 0 };
    let ev = json!({
        "property": prop, "tier": tier_s, "seed": seed, "level": meta.level,
        "coverage": cov, "assumptions": meta.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if std::env::var("MC_ONLY").is_err() {
        std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    }
    for (k, m) in &knowns {
        println!("KNOWN-FINDING: property={} {} {}", prop, k, m);
    }
    if let Some((six, v)) = verdict {
        let rd = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rd);
        let choices = v["choices"].as_str().unwrap_or("").to_string();
        // the written-out trace
        let full = match confirm(prop, tier_s, six, &parse_choices(&choices), suites[six].timeout_s, scratch) {
            OneEnd::Violated(f) => f,
            _ => v.clone(),
        };
        let path = format!("{}/{}-{}.json", rd, prop, tier_s);
        let rep = json!({
            "property": prop, "tier": tier_s, "suite": suites[six].name, "suite_ix": six, "choices": choices,
            "message": v["message"], "trace": full["trace"],
            "how_to_replay": format!("bash run.sh replay {}", path),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").unwrap();
        println!("{}: {}", suites[six].name, v["message"].as_str().unwrap_or("?"));
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("engine error: {}", e);
        return 2;
    }
    println!(
        "{} {}: held on everything explored: {} states, {} transitions, {} executions, {} traces validated against the implementation{} in {:.1}s",
        prop, tier_s, sum("distinct_states"), sum("transitions").max(sum("executions")), sum("executions"),
        sum("traces_validated_against_impl"), if exhaustive { ", exhaustive within its bounds" } else { ", CAPPED" }, t0.elapsed().as_secs_f64()
    );
    0
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let prop = v["property"].as_str().unwrap();
    let tier_s = v["tier"].as_str().unwrap();
    let six = v["suite_ix"].as_u64().unwrap() as usize;
    let scratch = format!("{}/target/run-replay-{}", VERIF, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let suites = props::suites(prop, tier_s == "thorough");
    let r = confirm(prop, tier_s, six, &parse_choices(v["choices"].as_str().unwrap()), suites[six].timeout_s, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        OneEnd::Held => {
            println!("held");
            0
        }
        OneEnd::Violated(x) => {
            for l in x["trace"].as_array().unwrap_or(&vec![]) {
                println!("  {}", l.as_str().unwrap_or(""));
            }
            println!("violated: {}", x["message"].as_str().unwrap_or("?"));
            1
        }
        OneEnd::Error(e) => {
            println!("engine error: {}", e);
            2
        }
    }
}
