//! What every simulated world shares: the seed's random stream, the event trace,
//! fault and reach counters, and the violation a run can end with.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed, 0)
    }
    /// An independent stream: decisions drawn from it do not shift the others.
    pub fn fork(&self, tag: &str) -> Self {
        let h = blake3::hash(format!("{}/{}", self.0, tag).as_bytes());
        Rng::new(u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap()))
    }
    pub fn u64(&mut self) -> u64 {
        self.1 = self.1.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.1 ^ self.0.rotate_left(17).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    pub fn chance(&mut self, per_mille: u64) -> bool {
        self.below(1000) < per_mille
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    /// Which of the property's rules broke: stable across the schedule, used to match while minimising.
    pub rule: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub states: u64,
    pub sim_ms: u64,
    pub events: u64,
    pub trace_hash: String,
    pub tail: Vec<String>,
}

/// One run's recorder.
pub struct Sim {
    pub rng: Rng,
    pub out: Outcome,
    hash: blake3::Hasher,
    states: std::collections::HashSet<[u8; 8]>,
    pub verbose: bool,
    keep: usize,
}
impl Sim {
    pub fn new(seed: u64) -> Self {
        Sim {
            rng: Rng::new(seed),
            out: Outcome::default(),
            hash: blake3::Hasher::new(),
            states: Default::default(),
            verbose: std::env::var_os("SNAPSIM_VERBOSE").is_some(),
            keep: 60,
        }
    }
    pub fn log(&mut self, s: impl AsRef<str>) {
        let line = format!("{:>8} {}", crate::sys::elapsed_ms(), s.as_ref());
        self.hash.update(line.as_bytes());
        self.hash.update(b"\n");
        self.out.events += 1;
        if self.verbose {
            eprintln!("{line}");
        }
        self.out.tail.push(line);
        if self.out.tail.len() > 2 * self.keep {
            let n = self.out.tail.len() - self.keep;
            self.out.tail.drain(..n);
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.out.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// A state reached, by digest: the measure of distinct states.
    pub fn state(&mut self, b: &[u8]) {
        let h = blake3::hash(b);
        self.states.insert(h.as_bytes()[..8].try_into().unwrap());
    }
    pub fn violate(&mut self, property: &str, rule: &str, detail: impl Into<String>) {
        let detail = detail.into();
        self.log(format!("VIOLATED {property} {rule}: {detail}"));
        if self.out.violations.len() < 50
            && !self.out.violations.iter().any(|v| v.property == property && v.rule == rule)
        {
            self.out.violations.push(Violation { property: property.into(), rule: rule.into(), detail });
        }
    }
    pub fn check(&mut self, property: &str, rule: &str, ok: bool, detail: impl FnOnce() -> String) {
        self.count(&format!("oracle.{property}"));
        if !ok {
            self.violate(property, rule, detail());
        }
    }
    pub fn violated(&self, property: &str) -> bool {
        self.out.violations.iter().any(|v| v.property == property)
    }
    pub fn finish(mut self) -> Outcome {
        self.out.sim_ms = crate::sys::elapsed_ms().max(self.out.sim_ms);
        self.out.states = self.states.len() as u64;
        self.out.trace_hash = self.hash.finalize().to_hex()[..32].to_string();
        let n = self.out.tail.len().saturating_sub(self.keep);
        self.out.tail.drain(..n);
        self.out
    }
}

/// A case to run: which world, its seed, its knobs and its plan of operations and faults.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: String,
    pub seed: u64,
    pub knobs: serde_json::Value,
    pub plan: Vec<serde_json::Value>,
}

pub trait World: Sync {
    fn name(&self) -> &'static str;
    /// The plan a seed stands for.
    fn generate(&self, seed: u64, focus: &str, thorough: bool) -> Case;
    fn run(&self, case: &Case, sim: &mut Sim);
}
