//! What the monitors observed: counters, distinct cases, samples.
use std::collections::{BTreeMap, HashSet};

pub type Case = Result<(), String>;

#[derive(Default)]
pub struct Obs {
    pub cases: u64,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub inconclusive: u64,
    pub verbose: bool,
    sample_every: u64,
}

const MAX_DISTINCT: usize = 3_000_000;

impl Obs {
    pub fn new() -> Self {
        Obs {
            sample_every: 1,
            ..Default::default()
        }
    }
    /// one oracle decision was made
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        if v > *e {
            *e = v;
        }
    }
    /// registers the digest of a non-trivial case
    pub fn distinct(&mut self, parts: &[&[u8]]) {
        if self.distinct.len() >= MAX_DISTINCT {
            return;
        }
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for p in parts {
            for b in (p.len() as u64).to_le_bytes().iter().chain(p.iter()) {
                h ^= *b as u64;
                h = h.wrapping_mul(0x0000_0100_0000_01b3);
            }
        }
        let mut x = h;
        self.distinct.insert(crate::rng::splitmix(&mut x));
    }
    /// keeps a few samples, spread over the run
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("sample: {}", f());
            return;
        }
        if self.samples.len() < 4 && self.cases % self.sample_every == 0 {
            self.samples.push(f());
            self.sample_every = self.sample_every * 37 + 5;
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err(format!($($t)*)); }
    };
}
