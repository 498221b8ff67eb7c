//! Random source, report and helpers shared by the monitors.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64 <= p
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash_of(t: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Report {
    pub quick: bool,
    pub seed: u64,
    pub scratch: PathBuf,
    end: Instant,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    violations: Vec<Value>,
    pub samples: Vec<String>,
    pub counts: BTreeMap<String, u64>,
}

impl Report {
    pub fn new(quick: bool, seed: u64, secs: u64, scratch: &str) -> Self {
        Report { quick, seed, scratch: scratch.into(), end: Instant::now() + Duration::from_secs(secs), evaluations: 0,
                 distinct: HashSet::new(), violations: vec![], samples: vec![], counts: BTreeMap::new() }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(stream))
    }
    /// More work: within time, below the cap of cases, and not drowning in violations.
    pub fn more(&self, done: u64, cap: u64) -> bool {
        done < cap && Instant::now() < self.end && self.violations.len() < 20
    }
    pub fn saw(&mut self, t: &impl Hash) {
        self.evaluations += 1;
        self.distinct.insert(hash_of(t));
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 4 {
            self.samples.push(s.into().chars().take(400).collect());
        }
    }
    pub fn violation(&mut self, what: impl Into<String>, files: &[(&str, String)]) {
        let what: String = what.into();
        if self.violations.len() < 60 {
            let f: Map<String, Value> = files.iter().map(|(n, t)| (n.to_string(), json!(t))).collect();
            self.violations.push(json!({"what": what, "files": f}));
        }
    }
    pub fn print(&self) {
        // what was seen, for the driver to join over parallel runs
        let raw: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(self.scratch.join("seen.bin"), raw).unwrap();
        println!("{}", json!({"evaluations": self.evaluations, "distinct": self.distinct.len(), "violations": self.violations,
                              "samples": self.samples, "counts": self.counts}));
    }
}

/// Runs code under test; a panic becomes its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
