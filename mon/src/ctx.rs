//! Per-worker bookkeeping: what was observed, and the violations found.
use std::collections::{BTreeMap, HashSet};

pub type V = Result<(), String>;

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub evals: u64,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<(u64, String)>,
    pub notes: Vec<String>,
    pub verbose: bool,
    pub worker: u64,
    pub nworkers: u64,
    pub variant: String,
    /// keys of recorded findings, and those that showed up
    pub known: Vec<String>,
    pub known_seen: std::collections::BTreeSet<String>,
}

impl Ctx {
    pub fn new(prop: &str, tier: &str) -> Self {
        Ctx { prop: prop.into(), tier: tier.into(), evals: 0, stats: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], violations: vec![], notes: vec![], verbose: false, worker: 0, nworkers: 1, variant: "plain".into(), known: vec![], known_seen: Default::default() }
    }
    pub fn count(&mut self, k: &str) { *self.stats.entry(k.to_string()).or_insert(0) += 1; }
    pub fn add(&mut self, k: &str, n: u64) { *self.stats.entry(k.to_string()).or_insert(0) += n; }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.stats.entry(k.to_string()).or_insert(0); *e = (*e).max(n); }
    /// record a distinct observed situation
    pub fn seen(&mut self, h: u64) { if self.distinct.len() < 400_000 { self.distinct.insert(h); } }
    pub fn sample(&mut self, v: serde_json::Value) { if self.samples.len() < 4 { self.samples.push(v); } }
    /// A failure of exactly the recorded kind `key`: noted when it is listed, otherwise a violation.
    pub fn finding(&mut self, key: &str, what: String) -> V {
        if self.known.iter().any(|k| k == key) { self.known_seen.insert(key.into()); Ok(()) } else { Err(what) }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
}

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
