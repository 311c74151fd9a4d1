use crate::choice::Src;
use crate::stats::{fnv, Stats};

#[derive(Debug, Clone)]
pub struct Violation { pub class: String, pub msg: String }

pub type V = Result<(), Violation>;

pub fn vio<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg })
}

pub struct Run {
    pub s: Src,
    pub st: Stats,
    pub trace: Option<Vec<String>>,
    pub obs: u64,
}

impl Run {
    pub fn new(s: Src, tracing: bool) -> Run {
        Run { s, st: Stats::default(), trace: if tracing { Some(vec![]) } else { None }, obs: 0 }
    }
    /// Record a step of the history; only rendered when replaying.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace { t.push(f()); }
    }
    /// Feed something observed into the determinism digest.
    pub fn observe(&mut self, b: &[u8]) {
        self.obs = self.obs.rotate_left(5) ^ fnv(b);
    }
}

pub type Scenario = fn(&mut Run) -> V;

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return format!("{:?}", s); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{:?}... ({} bytes)", &s[..e], s.len())
}
