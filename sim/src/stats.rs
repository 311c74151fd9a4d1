use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    /// hashes of distinct non-trivial situations (the measure is per property)
    pub sigs: HashSet<u64>,
    pub evals: u64,
    pub steps: u64,
    /// situations counted in this run, repeated ones included
    pub cases: u64,
    pub samples: Vec<String>,
    /// order-independent digest of everything observed
    pub digest: u64,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

impl Stats {
    pub fn hit(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        if n > *e { *e = n; }
    }
    pub fn sig(&mut self, b: &[u8]) { self.sig_u64(fnv(b)) }
    pub fn sig_u64(&mut self, h: u64) { self.cases += 1; self.sigs.insert(h); }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            if k.starts_with("max.") { self.max(&k, v) } else { self.add(&k, v) }
        }
        self.sigs.extend(o.sigs);
        self.evals += o.evals;
        self.steps += o.steps;
        self.digest = self.digest.wrapping_add(o.digest);
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s); } }
    }
}
