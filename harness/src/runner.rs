//! Drives one generated check: fixed shards, proptest search and shrinking, replay, statistics.
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const SHARDS: usize = 16;

#[derive(Clone)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// Run only this shard of this sub-check, for localising a case that kills the process.
    pub only: Option<Only>,
    pub scale: f64,
}

#[derive(Clone)]
pub struct Only {
    pub sub: String,
    pub shard: usize,
    /// Where to write the index of, and the case, about to be executed.
    pub log: Option<String>,
    /// From this case on, run each case in a process of its own.
    pub isolate_from: Option<u64>,
}

/// Progress of the shard threads, watched for cases that do not return.
pub static PROGRESS: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
pub static CURRENT_SUB: Mutex<String> = Mutex::new(String::new());

/// What a check observed while running cases.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    cur_nontrivial: bool,
}
impl Obs {
    pub fn label(&mut self, s: &str) {
        if let Some(v) = self.labels.get_mut(s) {
            *v += 1;
        } else {
            self.labels.insert(s.to_string(), 1);
        }
    }
    pub fn max(&mut self, s: &str, v: f64) {
        let e = self.maxes.entry(s.to_string()).or_insert(0.0);
        if v > *e {
            *e = v;
        }
    }
    /// The current case is non-trivial by the check's rule.
    pub fn nontrivial(&mut self) {
        self.cur_nontrivial = true;
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            self.max(&k, v);
        }
        self.samples.extend(o.samples);
    }
}

pub struct Violation {
    pub sub: String,
    pub case: serde_json::Value,
    pub message: String,
}

pub struct SubResult {
    pub name: String,
    pub rule: String,
    pub obs: Obs,
    pub violation: Option<Violation>,
    pub error: Option<String>,
}

pub trait Sub: Sync {
    fn name(&self) -> String;
    fn run(&self, ctx: &Ctx) -> SubResult;
    fn replay(&self, case: &serde_json::Value) -> Result<(), String>;
}

pub struct Check<T, FS, FT> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: FS,
    pub test: FT,
    pub _t: std::marker::PhantomData<fn() -> T>,
}

pub fn check<T, S, FS, FT>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: FS,
    test: FT,
) -> Box<dyn Sub>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
    FS: Fn() -> S + Sync + 'static,
    FT: Fn(&T, &mut Obs) -> Result<(), String> + Sync + 'static,
{
    Box::new(Check {
        name,
        rule,
        quick,
        thorough,
        strategy,
        test,
        _t: std::marker::PhantomData,
    })
}

fn seed_bytes(seed: u64, name: &str, shard: usize) -> [u8; 32] {
    // FNV-style mixing, stable across toolchains
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ k.wrapping_mul(0x9E3779B97F4A7C15);
        let mut feed = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        };
        for b in seed.to_le_bytes() {
            feed(b);
        }
        for b in name.bytes() {
            feed(b);
        }
        for b in (shard as u64).to_le_bytes() {
            feed(b);
        }
        out[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn hash_json(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl<T, S, FS, FT> Sub for Check<T, FS, FT>
where
    T: Debug + Clone + Serialize + DeserializeOwned,
    S: Strategy<Value = T>,
    FS: Fn() -> S + Sync,
    FT: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
{
    fn name(&self) -> String {
        self.name.to_string()
    }

    fn run(&self, ctx: &Ctx) -> SubResult {
        let base = if ctx.thorough { self.thorough } else { self.quick };
        let total = ((base as f64) * ctx.scale).max(SHARDS as f64) as u32;
        let per = (total + SHARDS as u32 - 1) / SHARDS as u32;
        let next = AtomicUsize::new(0);
        *CURRENT_SUB.lock().unwrap() = self.name.to_string();
        let results: Mutex<Vec<(usize, Obs, Option<Violation>, Option<String>)>> =
            Mutex::new(Vec::new());
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(SHARDS);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let shard = match &ctx.only {
                        Some(o) => {
                            if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                break;
                            }
                            o.shard
                        }
                        None => {
                            let s = next.fetch_add(1, Ordering::SeqCst);
                            if s >= SHARDS {
                                break;
                            }
                            s
                        }
                    };
                    let (o, v, e) = self.shard(ctx, shard, per);
                    results.lock().unwrap().push((shard, o, v, e));
                });
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut obs = Obs::default();
        let mut violation = None;
        let mut error = None;
        for (_, o, v, e) in rs {
            obs.merge(o);
            if violation.is_none() {
                violation = v;
            }
            if error.is_none() {
                error = e;
            }
        }
        obs.samples.truncate(4);
        SubResult {
            name: self.name.to_string(),
            rule: self.rule.to_string(),
            obs,
            violation,
            error,
        }
    }

    fn replay(&self, case: &serde_json::Value) -> Result<(), String> {
        let t: T = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {e}"))?;
        let mut obs = Obs::default();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (self.test)(&t, &mut obs)
        }));
        match r {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", panic_text(&p))),
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

impl<T, S, FS, FT> Check<T, FS, FT>
where
    T: Debug + Clone + Serialize + DeserializeOwned,
    S: Strategy<Value = T>,
    FS: Fn() -> S + Sync,
    FT: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
{
    fn shard(
        &self,
        ctx: &Ctx,
        shard: usize,
        per: u32,
    ) -> (Obs, Option<Violation>, Option<String>) {
        let cfg = Config {
            cases: per,
            failure_persistence: None,
            max_shrink_iters: std::env::var("AGAPBT_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(4000),
            max_global_rejects: 10,
            ..Config::default()
        };
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &seed_bytes(ctx.seed, self.name, shard),
        );
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let obs = RefCell::new(Obs::default());
        let failed = Cell::new(false);
        let index = Cell::new(0u64);
        let strat = (self.strategy)();
        let r = runner.run(&strat, |case| {
            index.set(index.get() + 1);
            PROGRESS[shard].store(index.get() << 1 | 1, Ordering::Relaxed);
            if let Some(o) = &ctx.only {
                if let Some(path) = &o.log {
                    let v = serde_json::json!({"sub": self.name, "index": index.get(), "case": &case});
                    let _ = std::fs::write(path, v.to_string());
                }
                if o.isolate_from.is_some_and(|n| index.get() >= n) {
                    let r = crate::isolated(&serde_json::json!({"sub": self.name, "case": &case}));
                    PROGRESS[shard].store(index.get() << 1, Ordering::Relaxed);
                    return r.map_err(TestCaseError::fail);
                }
            }
            let out = if failed.get() {
                // shrinking: statistics are not collected
                let mut dummy = Obs::default();
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    (self.test)(&case, &mut dummy)
                }))
            } else {
                let mut o = obs.borrow_mut();
                o.evals += 1;
                o.cur_nontrivial = false;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    (self.test)(&case, &mut o)
                }));
                if o.cur_nontrivial {
                    let js = serde_json::to_string(&case).unwrap_or_default();
                    o.nontrivial.insert(hash_json(&js));
                    if o.samples.is_empty() {
                        o.samples.push(js);
                    }
                }
                r
            };
            PROGRESS[shard].store(index.get() << 1, Ordering::Relaxed);
            match out {
                Ok(Ok(())) => Ok(()),
                Ok(Err(m)) => {
                    failed.set(true);
                    Err(TestCaseError::fail(m))
                }
                Err(p) => {
                    failed.set(true);
                    Err(TestCaseError::fail(format!("panic: {}", panic_text(&p))))
                }
            }
        });
        let mut violation = None;
        let mut error = None;
        match r {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                violation = Some(Violation {
                    sub: self.name.to_string(),
                    case: serde_json::to_value(&case).unwrap(),
                    message: reason.message().to_string(),
                });
            }
            Err(TestError::Abort(reason)) => error = Some(reason.message().to_string()),
        }
        (obs.into_inner(), violation, error)
    }
}
