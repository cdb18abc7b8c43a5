//! Shared machinery of the monitors: a `Run` collects what a workload did and what the oracles said, decides the
//! verdict (0 held, 1 violated, 2 inconclusive) and writes the evidence file.
pub mod blake;
pub mod gen;
pub mod uniform;
pub use rand;
pub use rand_chacha;
use rand::SeedableRng;
pub use rand_chacha::ChaCha8Rng as Rng8;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn short(b: &[u8]) -> String { if b.len() <= 48 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..32]), b.len()) } }

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    rule: String,
    start: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    states: Mutex<BTreeMap<String, HashSet<u64>>>,
    violations: Mutex<Vec<Value>>,
    seen_keys: Mutex<HashSet<String>>,
    known: Vec<(String, String)>,
    known_seen: Mutex<HashSet<String>>,
    stop: AtomicBool,
    assumptions: Mutex<Vec<String>>,
    min: Mutex<Vec<(String, u64)>>,
}

pub fn root() -> std::path::PathBuf { std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into()) }

impl Run {
    pub fn start(id: &str, rule: &str) -> Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("finding: ") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                    let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                    if p == id { known.push((k.to_string(), it.next().unwrap_or("").to_string())); }
                }
            }
        }
        // panics of the code under test are observations, not noise
        if std::env::var("VERIF_VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        Run {
            id: id.into(), thorough, seed, rule: rule.into(), start: Instant::now(), evals: AtomicU64::new(0), distinct: Default::default(), samples: Default::default(),
            counters: Default::default(), states: Default::default(), violations: Default::default(), seen_keys: Default::default(), known,
            known_seen: Default::default(), stop: AtomicBool::new(false), assumptions: Default::default(), min: Default::default(),
        }
    }
    /// seconds: quick or thorough
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
    pub fn rng(&self, stream: u64) -> Rng8 {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&self.seed.to_le_bytes());
        s[8..16].copy_from_slice(&stream.to_le_bytes());
        for (i, b) in self.id.bytes().enumerate().take(8) { s[16 + i] = b; }
        Rng8::from_seed(s)
    }
    pub fn elapsed(&self) -> Duration { self.start.elapsed() }
    /// true while a budget of seconds since the start of the run is not used up (and no flood of violations stops it)
    pub fn within(&self, secs: f64) -> bool { self.start.elapsed().as_secs_f64() < secs && !self.stop.load(SeqCst) }
    pub fn stopped(&self) -> bool { self.stop.load(SeqCst) }
    /// one evaluation of the oracle on a case identified by `case`
    pub fn eval<H: Hash>(&self, case: H, nontrivial: bool) {
        self.evals.fetch_add(1, SeqCst);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            self.distinct.lock().unwrap().insert(h.finish());
        }
    }
    pub fn count(&self, what: &str, n: u64) { *self.counters.lock().unwrap().entry(what.into()).or_insert(0) += n; }
    /// distinct observed states of a named kind
    pub fn state<H: Hash>(&self, kind: &str, s: H) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.states.lock().unwrap().entry(kind.into()).or_default().insert(h.finish());
    }
    pub fn sample(&self, f: impl FnOnce() -> String) { let mut s = self.samples.lock().unwrap(); if s.len() < 8 { s.push(f()); } }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    /// n: what an idle machine reaches of a counter (or "evaluations", "distinct"); under a quarter of it the run is inconclusive
    pub fn require(&self, what: &str, n: u64) { self.min.lock().unwrap().push((what.into(), n)); }

    pub fn violation(&self, key: &str, text: impl Into<String>) {
        let text = text.into();
        if let Some((_, _)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_seen.lock().unwrap().insert(key.to_string());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        let n = v.len();
        let first_of_kind = self.seen_keys.lock().unwrap().insert(key.to_string());
        let rec = json!({"property": self.id, "key": key, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"}, "what": text,
            "rerun": format!("VERIF_SEED={} VERIF_TIER={} ./check {}", self.seed, if self.thorough {"thorough"} else {"quick"}, self.id)});
        if first_of_kind && n < 50 {
            let dir = root().join("evidence/replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", self.id, n));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  {}: {}", key, text.chars().take(1500).collect::<String>());
        }
        v.push(rec);
        // (for trials: the first violation is enough)
        if std::env::var("VERIF_FIRST").is_ok() { std::process::exit(1); }
        if v.len() > 200 { self.stop.store(true, SeqCst); }
    }
    pub fn check(&self, ok: bool, key: &str, text: impl FnOnce() -> String) -> bool { if !ok { self.violation(key, text()); } ok }
    /// runs code under test; a panic is a violation unless it is part of what the caller expects
    pub fn no_panic<T>(&self, key: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) { Ok(v) => Some(v), Err(m) => { self.violation(key, format!("panicked ({}): {}", m, what())); None } }
    }
    /// runs `f(thread, rng)` on n threads
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Rng8) + Sync) {
        std::thread::scope(|s| {
            for t in 0..n {
                let f = &f;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut r = self.rng(1000 + t as u64);
                    if let Err(m) = catch(|| f(t, &mut r)) { self.violation("workload-panic", format!("thread {} died outside a guarded call: {}", t, m)); }
                }).unwrap();
            }
        });
    }
    pub fn evals(&self) -> u64 { self.evals.load(SeqCst) }
    pub fn finish(self) -> ! {
        let distinct = self.distinct.lock().unwrap().len() as u64;
        let evals = self.evals.load(SeqCst);
        let counters = self.counters.lock().unwrap().clone();
        let states: BTreeMap<String, usize> = self.states.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.len())).collect();
        let nviol = self.violations.lock().unwrap().len();
        let mut cov = json!({"evaluations": evals, "distinct_nontrivial": distinct, "rule": self.rule, "samples": *self.samples.lock().unwrap(), "observed_events": counters, "distinct_states": states});
        let listed: Vec<String> = self.known.iter().map(|(k, w)| format!("{} {}", k, w)).collect();
        if !listed.is_empty() { cov["known_findings_observed"] = json!(self.known_seen.lock().unwrap().iter().cloned().collect::<Vec<_>>()); }
        let ev = json!({"property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed, "level": "exploration", "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(), "wall_s": self.start.elapsed().as_secs_f64(), "violations": nviol});
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        // a run in parts leaves its parts for the driver to merge
        let name = match std::env::var("VERIF_PART") { Ok(p) if !p.is_empty() => format!("parts/{}.{}.json", self.id, p), _ => format!("{}.json", self.id) };
        let path = dir.join(name);
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        for (k, w) in &self.known {
            if self.known_seen.lock().unwrap().contains(k) { println!("KNOWN-FINDING: property={} {} ({})", self.id, w, k); }
        }
        println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s, events {:?}, states {:?}", self.id, evals, distinct, nviol, self.start.elapsed().as_secs_f64(), counters, states);
        if nviol > 0 { std::process::exit(1); }
        for (w, n) in self.min.lock().unwrap().iter() {
            let have = match w.as_str() { "evaluations" => evals, "distinct" => distinct, w => counters.get(w).copied().unwrap_or_else(|| states.get(w).copied().unwrap_or(0) as u64) };
            if have * 4 < *n { println!("INCONCLUSIVE {}: {} reached {} of {}", self.id, w, have, n); std::process::exit(2); }
        }
        std::process::exit(0)
    }
}

/// result of a guarded call
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
    })
}
