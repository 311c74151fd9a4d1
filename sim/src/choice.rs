//! The single source of nondeterminism of a run.
//!
//! Every decision (generated content, fault, schedule) is one `draw(n)`.  A run
//! is a pure function of the drawn sequence, so a recorded sequence is a replay
//! file and shrinking the sequence shrinks the execution.
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x5EED);
    let mut acc = r.next();
    for p in parts {
        let mut q = Rng::new(acc ^ p.wrapping_mul(0xD6E8FEB86659FD93));
        acc = q.next();
    }
    acc
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    sink: Option<std::fs::File>,
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, log: vec![], sink: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: None, replay: choices, pos: 0, log: vec![], sink: None }
    }
    /// Write every choice to a file as it is drawn (used when a run kills the process).
    pub fn log_to(&mut self, path: &str) {
        self.sink = std::fs::File::create(path).ok();
    }
    /// A value in `0..n`; zero is the simplest one.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.log.push(v);
        if let Some(f) = &mut self.sink {
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// True with probability num/den; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num.min(den) }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    /// Index chosen by weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x { return i; }
            v -= x;
        }
        w.len() - 1
    }
    /// Roughly geometric length in 0..=max.
    pub fn len(&mut self, max: usize) -> usize {
        let cap = match self.weighted(&[4, 3, 2, 1]) { 0 => 2, 1 => 5, 2 => 12, _ => max };
        self.below(cap.min(max) + 1)
    }
}
