//! Case generation, shrinking, counting, evidence and replay. Every check runs through `Ctx::prop`
//! (proptest-generated cases) or `Ctx::sweep` (complete enumeration of a finite sub-domain).
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Default)]
pub struct Log {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub known: Vec<(String, String)>,
    /// Evaluations of the code under test beyond the one every case counts as.
    pub extra_evals: u64,
    /// Sweeps: distinct non-trivial items inside one index.
    pub extra_nontrivial: u64,
    pub note: Option<String>,
    /// A smaller case (sub-check name, value) that shows the same failure.
    pub minimal: Option<(String, Value)>,
}

impl Log {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c)
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    cases: u64,
    distinct: HashSet<u64>,
    swept_nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, (u64, String)>,
    subs: BTreeMap<String, u64>,
}

impl Stats {
    fn absorb(&mut self, log: Log) {
        self.cases += 1;
        self.evaluations += 1 + log.extra_evals;
        self.swept_nontrivial += log.extra_nontrivial;
        for c in log.classes {
            *self.classes.entry(c.to_string()).or_default() += 1;
        }
        for (k, e) in log.known {
            let x = self.known.entry(k).or_insert((0, e));
            x.0 += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evaluations += o.evaluations;
        self.swept_nontrivial += o.swept_nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, (n, e)) in o.known {
            let x = self.known.entry(k).or_insert((0, e));
            x.0 += n;
        }
        self.samples.extend(o.samples);
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sub: String,
    pub value: Value,
    pub reason: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: u64,
    pub replay: Option<(String, Value)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    trace: bool,
    stats: Mutex<Stats>,
    violation: Mutex<Option<Violation>>,
    replayed: AtomicBool,
    start: Instant,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

thread_local! { static TRACE_FILE: RefCell<Option<PathBuf>> = RefCell::new(None); }

/// Runs code under test; a panic becomes an Err with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, replay: Option<(String, Value)>) -> Ctx {
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            threads: 8,
            replay,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(Vec::new()),
            trace: std::env::var("PV_TRACE").is_ok(),
            stats: Mutex::new(Stats::default()),
            violation: Mutex::new(None),
            replayed: AtomicBool::new(false),
            start: Instant::now(),
        }
    }

    /// Number of cases: quick or thorough.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn failed(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }
    pub fn violate(&self, sub: &str, value: Value, reason: String) {
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation { sub: sub.to_string(), value, reason });
        }
    }
    /// For checks that drive their own cases (batches).
    pub fn record(&self, key: Option<&str>, log: Log, sample: Option<Value>) {
        let mut st = self.stats.lock().unwrap();
        if let Some(k) = key {
            if log.nontrivial {
                st.distinct.insert(fnv(k.as_bytes()));
            }
        }
        if let Some(s) = sample {
            if st.samples.len() < 12 {
                st.samples.push(s);
            }
        }
        st.absorb(log);
    }
    pub fn mark_replayed(&self) {
        self.replayed.store(true, Ordering::Relaxed);
    }
    pub fn known(&self, key: &str, example: String) {
        let mut st = self.stats.lock().unwrap();
        st.known.entry(key.to_string()).or_insert((0, example)).0 += 1;
    }
    pub fn rng_seed(&self, sub: &str, shard: u64) -> [u8; 32] {
        let mut out = [0u8; 32];
        for k in 0..4u64 {
            let s = format!("{}/{}/{}/{}/{}", self.seed, self.id, sub, shard, k);
            // FNV-1a then a splitmix finaliser: stable across runs and toolchains.
            let mut h: u64 = 0xcbf29ce484222325;
            for b in s.bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
            h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
            h ^= h >> 31;
            out[(k as usize) * 8..][..8].copy_from_slice(&h.to_le_bytes());
        }
        out
    }
    pub fn runner(&self, sub: &str, shard: u64, cases: u64) -> TestRunner {
        let cfg = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 50_000,
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &self.rng_seed(sub, shard)))
    }
    pub fn trace_case(&self, sub: &str, v: &Value) {
        if self.trace {
            let p = root().join("replays").join(format!("{}.last.json", self.id));
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            let _ = std::fs::write(
                &p,
                serde_json::to_vec(&json!({"property": self.id, "sub": sub, "value": v, "seed": self.seed,
                    "thorough": self.thorough, "reason": "the process was killed by a signal while running this case"}))
                .unwrap(),
            );
        }
    }

    pub fn prop<S, M, F>(&self, sub: &str, cases: u64, mk: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone,
        M: Fn() -> S + Sync,
        F: Fn(&S::Value, &mut Log) -> Result<(), String> + Sync,
    {
        if let Some((rsub, rval)) = &self.replay {
            if rsub == sub {
                self.replayed.store(true, Ordering::Relaxed);
                let v: S::Value = serde_json::from_value(rval.clone()).expect("HARNESS: replay value");
                let mut log = Log::default();
                let r = guard(|| test(&v, &mut log)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
                self.record(Some(&rval.to_string()), log, Some(rval.clone()));
                if let Err(e) = r {
                    self.violate(sub, rval.clone(), e);
                }
            }
            return;
        }
        if self.failed() {
            return;
        }
        let shards = if self.trace { 1 } else { self.threads };
        let shard_ids: Vec<u64> = (0..self.threads).collect();
        let per = (cases + self.threads - 1) / self.threads;
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(u64, Violation)>> = Mutex::new(Vec::new());
        let run_shard = |shard: u64| {
            let mut runner = self.runner(sub, shard, per);
            let strat = mk();
            let st = RefCell::new(Stats::default());
            let failing = RefCell::new(false);
            let last_reason = RefCell::new(String::new());
            let r = runner.run(&strat, |v: S::Value| {
                if stop.load(Ordering::Relaxed) && !*failing.borrow() {
                    return Ok(());
                }
                let mut log = Log::default();
                if self.trace {
                    self.trace_case(sub, &serde_json::to_value(&v).unwrap());
                }
                let res = guard(|| test(&v, &mut log)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
                if !*failing.borrow() {
                    let mut s = st.borrow_mut();
                    if log.nontrivial {
                        let bytes = serde_json::to_vec(&v).unwrap();
                        s.distinct.insert(fnv(&[sub.as_bytes(), &bytes].concat()));
                        if s.samples.len() < 1 && s.cases >= shard * 3 {
                            let mut j = json!({"sub": sub, "case": serde_json::to_value(&v).unwrap()});
                            if let Some(n) = &log.note {
                                j["observed"] = json!(n);
                            }
                            s.samples.push(j);
                        }
                    }
                    s.absorb(log);
                }
                match res {
                    Ok(()) => Ok(()),
                    Err(e) => {
                        *failing.borrow_mut() = true;
                        *last_reason.borrow_mut() = e.clone();
                        Err(TestCaseError::fail(e))
                    }
                }
            });
            match r {
                Ok(()) => {}
                Err(TestError::Fail(reason, v)) => {
                    stop.store(true, Ordering::Relaxed);
                    results.lock().unwrap().push((
                        shard,
                        Violation {
                            sub: sub.to_string(),
                            value: serde_json::to_value(&v).unwrap(),
                            reason: reason.to_string(),
                        },
                    ));
                }
                Err(TestError::Abort(reason)) => {
                    eprintln!("HARNESS: generator aborted in {}: {}", sub, reason);
                    std::process::exit(3);
                }
            }
            let st = st.into_inner();
            self.stats.lock().unwrap().merge(st);
        };
        if shards == 1 {
            for s in &shard_ids {
                run_shard(*s);
            }
        } else {
            std::thread::scope(|sc| {
                for s in &shard_ids {
                    let run_shard = &run_shard;
                    let s = *s;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || run_shard(s))
                        .expect("HARNESS: thread");
                }
            });
        }
        *self.stats.lock().unwrap().subs.entry(sub.to_string()).or_default() += per * self.threads;
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|(s, v)| (v.value.to_string().len(), *s));
        if let Some((_, v)) = rs.into_iter().next() {
            self.violate(&v.sub.clone(), v.value, v.reason);
        }
    }

    /// Complete enumeration of indices 0..total, in parallel. The smallest failing index of the earliest
    /// failing block is reported. `describe` renders an index for humans.
    pub fn sweep<F, D>(&self, sub: &str, total: u64, describe: D, test: F)
    where
        F: Fn(u64, &mut Log) -> Result<(), String> + Sync,
        D: Fn(u64) -> Value + Sync,
    {
        if let Some((rsub, rval)) = &self.replay {
            if rsub == sub {
                self.replayed.store(true, Ordering::Relaxed);
                let k = rval["index"].as_u64().expect("HARNESS: replay index");
                let mut log = Log::default();
                let r = guard(|| test(k, &mut log)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
                self.record(None, log, Some(rval.clone()));
                if let Err(e) = r {
                    self.violate(sub, rval.clone(), e);
                }
            }
            return;
        }
        if self.failed() {
            return;
        }
        let next = AtomicU64::new(0);
        let block = (total / (self.threads * 16)).clamp(1, 4096);
        let best: Mutex<Option<(u64, String, Option<(String, Value)>)>> = Mutex::new(None);
        let found = AtomicBool::new(false);
        let work = || {
            let mut st = Stats::default();
            'outer: loop {
                let b = next.fetch_add(block, Ordering::Relaxed);
                if b >= total || found.load(Ordering::Relaxed) {
                    break;
                }
                for k in b..(b + block).min(total) {
                    let mut log = Log::default();
                    if self.trace {
                        self.trace_case(sub, &json!({"index": k, "case": describe(k)}));
                    }
                    let r = guard(|| test(k, &mut log)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
                    if log.nontrivial {
                        log.extra_nontrivial += 1;
                    }
                    let note = log.note.take();
                    let minimal = log.minimal.take();
                    let nt = log.nontrivial;
                    st.absorb(log);
                    if nt && st.samples.is_empty() && k % 3 == 1 {
                        let mut j = json!({"sub": sub, "index": k, "case": describe(k)});
                        if let Some(n) = note {
                            j["observed"] = json!(n);
                        }
                        st.samples.push(j);
                    }
                    if let Err(e) = r {
                        let mut g = best.lock().unwrap();
                        if g.as_ref().map_or(true, |(i, _, _)| k < *i) {
                            *g = Some((k, e, minimal));
                        }
                        found.store(true, Ordering::Relaxed);
                        break 'outer;
                    }
                }
            }
            self.stats.lock().unwrap().merge(st);
        };
        if self.trace {
            work();
        } else {
            std::thread::scope(|sc| {
                for _ in 0..self.threads {
                    sc.spawn(&work);
                }
            });
        }
        *self.stats.lock().unwrap().subs.entry(format!("{} (complete sweep)", sub)).or_default() += total;
        let b = best.into_inner().unwrap();
        match b {
            Some((_, e, Some((s, v)))) => self.violate(&s, v, e),
            Some((k, e, None)) => self.violate(sub, json!({"index": k, "case": describe(k)}), e),
            None => {}
        }
    }

    /// Prints the outcome, writes evidence and replay file, returns the exit code.
    pub fn finish(self, write_evidence: bool) -> i32 {
        if self.replay.is_some() && !self.replayed.load(Ordering::Relaxed) && !self.failed() {
            eprintln!("HARNESS: replay names an unknown sub-check");
            return 3;
        }
        let st = self.stats.into_inner().unwrap();
        let viol = self.violation.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let distinct = st.distinct.len() as u64 + st.swept_nontrivial;
        let mut samples = st.samples;
        samples.sort_by_key(|s| s["sub"].as_str().unwrap_or("").to_string());
        // Keep at most two per sub-check, twelve in all.
        let mut per: BTreeMap<String, u32> = BTreeMap::new();
        samples.retain(|s| {
            let c = per.entry(s["sub"].as_str().unwrap_or("").to_string()).or_default();
            *c += 1;
            *c <= 2
        });
        samples.truncate(24);
        for (k, (n, e)) in &st.known {
            println!("KNOWN-FINDING: property={} {} (seen {} times; e.g. {})", self.id, k, n, e);
        }
        if write_evidence {
            let ev = json!({
                "property": self.id,
                "tier": if self.thorough {"thorough"} else {"quick"},
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": st.evaluations,
                    "distinct_nontrivial": distinct,
                    "rule": self.rule.into_inner().unwrap(),
                    "samples": samples,
                    "cases": st.cases,
                    "sub_checks": st.subs,
                    "classes": st.classes,
                    "known_findings_seen": st.known.iter().map(|(k,(n,e))| json!({"finding":k,"cases":n,"example":e})).collect::<Vec<_>>(),
                },
                "assumptions": self.assumptions.into_inner().unwrap(),
                "wall_s": (wall * 100.0).round() / 100.0,
                "violations": if viol.is_some() {1} else {0},
            });
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_vec_pretty(&ev).unwrap())
                .expect("HARNESS: evidence");
        }
        println!(
            "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s",
            self.id,
            if viol.is_some() { "VIOLATED" } else { "held" },
            st.evaluations,
            distinct,
            wall
        );
        match viol {
            None => 0,
            Some(v) => {
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{}.json", self.id, v.sub));
                std::fs::write(
                    &p,
                    serde_json::to_vec_pretty(&json!({"property": self.id, "sub": v.sub, "value": v.value,
                        "reason": v.reason, "seed": self.seed, "thorough": self.thorough}))
                    .unwrap(),
                )
                .expect("HARNESS: replay");
                println!("minimal failing case in {}: {}", v.sub, v.value);
                println!("reason: {}", v.reason);
                println!("VIOLATION property={} replay={}", self.id, p.display());
                1
            }
        }
    }
}
