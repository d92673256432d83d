//! Property-based checks of the aga8 crate. See ../../DESIGN.md.
//!
//!   agapbt run <property>            run a check (VERIF_SEED, VERIF_TIER), writing evidence and replay files
//!   agapbt replay <file>             run one saved case; exit 1 if it still fails
//!   agapbt list                      list properties and sub-checks
mod cinst;
mod gens;
mod inst;
mod num;
mod props;
mod reference;
mod runner;
mod tables;

use runner::*;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().unwrap_or_else(|_| {
            s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
        }),
        Err(_) => 1,
    }
}

fn ctx() -> Ctx {
    Ctx {
        seed: seed(),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        only: None,
        scale: std::env::var("AGAPBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

const HANG: i32 = 77;

/// Ends the process with a distinct code when one case has been running for `ticks` samples.
fn watch(ticks: u32) {
    std::thread::spawn(move || {
        let mut last = [0u64; SHARDS];
        let mut stuck = [0u32; SHARDS];
        loop {
            std::thread::sleep(Duration::from_millis(100));
            for s in 0..SHARDS {
                let v = PROGRESS[s].load(Ordering::Relaxed);
                if v & 1 == 1 && v == last[s] {
                    stuck[s] += 1;
                    if stuck[s] > ticks {
                        let sub = CURRENT_SUB.lock().map(|s| s.clone()).unwrap_or_default();
                        eprintln!("HANG {sub} {s} {}", v >> 1);
                        std::process::exit(HANG);
                    }
                } else {
                    stuck[s] = 0;
                }
                last[s] = v;
            }
        }
    });
}

const HANG_TICKS: u32 = 250;

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

/// Runs one case in a child process. Err when it fails, dies, or does not return.
pub fn isolated(case: &Value) -> Result<(), String> {
    let mut ch = me()
        .arg("case")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    ch.stdin.take().unwrap().write_all(case.to_string().as_bytes()).map_err(|e| e.to_string())?;
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    match out.status.code() {
        Some(0) => Ok(()),
        Some(1) => Err(String::from_utf8_lossy(&out.stdout).trim().to_string()),
        Some(HANG) => Err("the call does not return".into()),
        _ => Err(format!("the process died: {}", out.status)),
    }
}

fn find(prop: &str) -> Vec<Box<dyn Sub>> {
    match props::subs(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

fn run_case(v: &Value) -> Result<(), String> {
    let name = v["sub"].as_str().unwrap_or("");
    let prop = name.split('.').next().unwrap_or("");
    for s in find(prop) {
        if s.name() == name {
            return s.replay(&v["case"]);
        }
    }
    eprintln!("unknown sub-check {name}");
    std::process::exit(2);
}

/// The worker: runs all sub-checks in-process and prints one JSON document.
fn worker(prop: &str, only: Option<Only>) -> i32 {
    // a worker that runs its cases in child processes leaves it to them to notice a hang
    let isolating = only.as_ref().is_some_and(|o| o.isolate_from.is_some());
    watch(if isolating { 4 * HANG_TICKS } else { HANG_TICKS });
    let mut c = ctx();
    c.only = only;
    let mut outs = vec![];
    for s in find(prop) {
        if let Some(o) = &c.only {
            if o.sub != s.name() {
                continue;
            }
        }
        let t0 = Instant::now();
        let r = s.run(&c);
        let o = &r.obs;
        outs.push(json!({
            "name": r.name, "rule": r.rule, "wall_s": t0.elapsed().as_secs_f64(),
            "evaluations": o.evals, "nontrivial": o.nontrivial.len(),
            "labels": o.labels, "maxes": o.maxes, "samples": o.samples,
            "violation": r.violation.as_ref().map(|v| json!({"sub": v.sub, "case": v.case, "message": v.message})),
            "error": r.error,
        }));
    }
    println!("{}", Value::Array(outs));
    0
}

fn write_replay(prop: &str, sub: &str, case: &Value, msg: &str) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", sub.replace(|c: char| !c.is_alphanumeric() && c != '.', "_")));
    let v = json!({"property": prop, "sub": sub, "case": case, "message": msg, "seed": seed()});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path.display().to_string()
}

/// Finds, in a sub-check whose worker died, the case that kills it, and shrinks it.
fn localise(prop: &str, hang_at: Option<(String, usize)>) -> Option<(String, Value, String)> {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut jobs = vec![];
    for s in find(prop) {
        for shard in 0..SHARDS {
            if hang_at.as_ref().map_or(true, |h| h.0 == s.name() && h.1 == shard) {
                jobs.push((s.name(), shard));
            }
        }
    }
    let next = std::sync::Mutex::new((0usize, None::<(usize, String, usize, u64, i32)>));
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = {
                    let mut n = next.lock().unwrap();
                    if n.1.is_some() || n.0 >= jobs.len() {
                        return;
                    }
                    n.0 += 1;
                    n.0 - 1
                };
                let (sub, shard) = &jobs[k];
                let log = dir.join(format!(".log-{prop}-{k}"));
                let st = me()
                    .args(["worker", prop, sub, &shard.to_string(), log.to_str().unwrap()])
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status();
                let code = st.map(|s| s.code().unwrap_or(-1)).unwrap_or(0);
                if code != 0 {
                    let v: Value = std::fs::read_to_string(&log)
                        .ok()
                        .and_then(|s| serde_json::from_str(&s).ok())
                        .unwrap_or(Value::Null);
                    let idx = v["index"].as_u64().unwrap_or(1);
                    let mut n = next.lock().unwrap();
                    if n.1.as_ref().map_or(true, |o| k < o.0) {
                        n.1 = Some((k, sub.clone(), *shard, idx, code));
                    }
                }
                let _ = std::fs::remove_file(&log);
            });
        }
    });
    let (_, sub, shard, idx, code) = next.into_inner().unwrap().1?;
    // re-run that shard with the fatal case (and its shrinks) in processes of their own
    let out = me()
        .args(["worker", prop, &sub, &shard.to_string(), "-", &idx.to_string()])
        .env("AGAPBT_SHRINK", if code == HANG { "0" } else { "400" })
        .stderr(Stdio::null())
        .output()
        .ok()?;
    let v: Value = serde_json::from_slice(&out.stdout).ok()?;
    let v = &v[0]["violation"];
    if v.is_null() {
        return None;
    }
    Some((sub, v["case"].clone(), v["message"].as_str().unwrap_or("").to_string()))
}

fn run(prop: &str) -> i32 {
    let t0 = Instant::now();
    let c = ctx();
    let out = match me().args(["worker", prop]).stderr(Stdio::piped()).stdout(Stdio::piped()).output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            return 2;
        }
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let mut violations: Vec<(String, Value, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut subs = vec![];
    if out.status.code() == Some(0) {
        match serde_json::from_slice::<Value>(&out.stdout) {
            Ok(Value::Array(a)) => subs = a,
            _ => errors.push("unreadable worker output".into()),
        }
    } else {
        let hang = err.lines().find_map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            (w.len() == 4 && w[0] == "HANG").then(|| (w[1].to_string(), w[2].parse().unwrap_or(0)))
        });
        let hung = out.status.code() == Some(HANG);
        eprintln!("worker ended with {}; looking for the case\n{}", out.status, err.lines().rev().take(5).collect::<Vec<_>>().join("\n"));
        match localise(prop, if hung { hang } else { None }) {
            // a case that does not return decides only the properties that promise an outcome
            Some(v) if !hung || ["C05", "C06", "C07", "C16"].contains(&prop) => violations.push(v),
            Some(v) => errors.push(format!("no answer: {} on {}", v.2, v.1)),
            None => errors.push(format!("worker ended with {} and no case reproduces it", out.status)),
        }
    }
    let mut evals = 0;
    let mut nontriv = 0;
    let mut rules = vec![];
    let mut samples = vec![];
    for s in &subs {
        evals += s["evaluations"].as_u64().unwrap_or(0);
        nontriv += s["nontrivial"].as_u64().unwrap_or(0);
        rules.push(format!("[{}] {}", s["name"].as_str().unwrap(), s["rule"].as_str().unwrap()));
        for x in s["samples"].as_array().unwrap() {
            let case: Value = serde_json::from_str(x.as_str().unwrap_or("null")).unwrap_or(Value::Null);
            samples.push(json!({"sub": s["name"], "case": case}));
        }
        if let Some(e) = s["error"].as_str() {
            errors.push(format!("{}: {}", s["name"], e));
        }
        let v = &s["violation"];
        if !v.is_null() {
            violations.push((
                v["sub"].as_str().unwrap().to_string(),
                v["case"].clone(),
                v["message"].as_str().unwrap_or("").to_string(),
            ));
        }
    }
    let ev = json!({
        "property": prop,
        "tier": if c.thorough { "thorough" } else { "quick" },
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": rules.join(" "),
            "samples": samples,
            "subchecks": subs.iter().map(|s| json!({
                "name": s["name"], "evaluations": s["evaluations"], "distinct_nontrivial": s["nontrivial"],
                "classes": s["labels"], "largest_observed": s["maxes"], "wall_s": s["wall_s"]})).collect::<Vec<_>>(),
        },
        "assumptions": props::assumptions(prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        errors.push("cannot write evidence".into());
    }
    for (sub, case, msg) in &violations {
        let path = write_replay(prop, sub, case, msg);
        println!("{sub}: {msg}\n  case {case}");
        println!("VIOLATION property={prop} replay={path}");
    }
    for e in &errors {
        eprintln!("ERROR {e}");
    }
    println!(
        "{prop}: {} cases, {} non-trivial, {:.1} s",
        evals,
        nontriv,
        t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

/// A directory for compiled callers and probes, removed at the end.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = root().join(format!("harness/target/scratch.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        std::env::set_var("AGAPBT_SCRATCH", &p);
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scratch = matches!(a.get(1).map(|s| s.as_str()), Some("run" | "replay")).then(Scratch::new);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("worker") => {
            std::panic::set_hook(Box::new(|_| {}));
            let only = a.get(3).map(|sub| Only {
                sub: sub.clone(),
                shard: a[4].parse().unwrap(),
                log: a.get(5).filter(|l| *l != "-").cloned(),
                isolate_from: a.get(6).map(|n| n.parse().unwrap()),
            });
            worker(&a[2], only)
        }
        Some("case") => {
            std::panic::set_hook(Box::new(|_| {}));
            let v: Value = serde_json::from_reader(std::io::stdin()).unwrap();
            PROGRESS[0].store(1, Ordering::Relaxed);
            watch(HANG_TICKS);
            match run_case(&v) {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            match isolated(&v) {
                Ok(()) => {
                    println!("holds on this case");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or("?"), a[2]);
                    1
                }
            }
        }
        Some("probe") => props::probe(&a[2..]),
        Some("literals") => {
            // the contents of literals.txt for the present sources
            for (b, n) in gens::literals() {
                println!("{:?} {n}", f64::from_bits(b));
            }
            0
        }
        Some("list") => {
            for p in props::ALL {
                for s in find(p) {
                    println!("{p} {}", s.name());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: agapbt run <property> | replay <file> | list");
            2
        }
    };
    drop(scratch);
    std::process::exit(code);
}
