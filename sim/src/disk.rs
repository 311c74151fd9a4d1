//! Simulated storage: a file of small sectors behind a write-back cache.
//! Everything a load sees went through here.
use crate::choice::Src;
use crate::stats::Stats;

pub struct Disk {
    /// what a crash leaves behind
    pub durable: Vec<u8>,
    pub sector: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome { Clean, Faulted }

impl Disk {
    pub fn new(s: &mut Src) -> Disk {
        Disk { durable: vec![], sector: [16, 4, 7, 32, 64][s.below(5)] }
    }
    /// The writer replaces the file's content; `fault` lets the simulator
    /// interfere.  Clean means: acknowledged and durable, nothing injected.
    pub fn save(&mut self, s: &mut Src, st: &mut Stats, new: &[u8], fault: bool) -> Outcome {
        if !fault { self.durable = new.to_vec(); return Outcome::Clean; }
        let old = self.durable.clone();
        match s.below(11) {
            0 => { // crash while rewriting in place: every sector old, new or torn
                let mut f = vec![];
                let len = match s.below(3) { 0 => new.len(), 1 => old.len(), _ => new.len().max(old.len()) };
                let secs = (len + self.sector - 1) / self.sector.max(1);
                let mode = s.below(3);
                let cut = s.below(secs + 1);
                for k in 0..secs {
                    let (a, b) = (k * self.sector, ((k + 1) * self.sector).min(len));
                    let get = |v: &[u8], i: usize| v.get(i).copied();
                    let fresh = match mode { 0 => k < cut, 1 => k >= cut, _ => s.chance(1, 2) };
                    let tear = if s.chance(1, 6) { st.hit("fault.torn_sector"); a + s.below(b - a + 1) } else { b };
                    for i in a..b {
                        let use_new = if i < tear { fresh } else { !fresh };
                        let v = if use_new { get(new, i).or(get(&old, i)) } else { get(&old, i).or(get(new, i)) };
                        f.push(v.unwrap_or(0));
                    }
                }
                st.hit("fault.crash_mid_rewrite");
                self.durable = f;
            }
            1 => { st.hit("fault.lost_write"); } // acknowledged, never reached the platter
            2 => { // ENOSPC / short write after truncation
                let n = s.below(new.len() + 1);
                st.hit("fault.enospc_short_write");
                self.durable = new[..n].to_vec();
            }
            3 => { // crash after appending a prefix to the old content
                let n = s.below(new.len() + 1);
                st.hit("fault.crash_mid_append");
                self.durable.extend_from_slice(&new[..n]);
            }
            4 => { // bit rot
                self.durable = new.to_vec();
                let k = s.range(1, 3);
                for _ in 0..k {
                    if self.durable.is_empty() { break; }
                    let i = s.below(self.durable.len());
                    let b = s.below(8);
                    self.durable[i] ^= 1 << b;
                    st.hit("fault.bit_flip");
                }
            }
            5 => { // zeroed sector
                self.durable = new.to_vec();
                let n = self.durable.len();
                if n > 0 {
                    let k = s.below((n + self.sector - 1) / self.sector);
                    for i in k * self.sector..((k + 1) * self.sector).min(n) { self.durable[i] = 0; }
                    st.hit("fault.zeroed_sector");
                }
            }
            6 => { // misdirected write: one sector duplicated over another
                self.durable = new.to_vec();
                let n = self.durable.len();
                let secs = n / self.sector;
                if secs > 1 {
                    let (a, b) = (s.below(secs), s.below(secs));
                    let tmp = self.durable[a * self.sector..(a + 1) * self.sector].to_vec();
                    self.durable[b * self.sector..(b + 1) * self.sector].copy_from_slice(&tmp);
                    st.hit("fault.misdirected_sector");
                }
            }
            7 => { // sector lost from the middle (hole closed up by a bad copy)
                self.durable = new.to_vec();
                let n = self.durable.len();
                if n > 0 {
                    let a = s.below(n);
                    let b = (a + s.range(1, self.sector)).min(n);
                    self.durable.drain(a..b);
                    st.hit("fault.lost_range");
                }
            }
            8 => { // duplicated range
                self.durable = new.to_vec();
                let n = self.durable.len();
                if n > 0 {
                    let a = s.below(n);
                    let b = (a + s.range(1, self.sector)).min(n);
                    let t = self.durable[a..b].to_vec();
                    let at = s.below(n + 1);
                    for (i, x) in t.into_iter().enumerate() { self.durable.insert(at + i, x); }
                    st.hit("fault.duplicated_range");
                }
            }
            9 => { // single byte overwritten by a byte that means something to the format
                self.durable = new.to_vec();
                let n = self.durable.len();
                if n > 0 {
                    let k = s.range(1, 2);
                    for _ in 0..k {
                        let i = s.below(n);
                        let set = b"\"\\/{}()=;#-*rn \n\t0e_x.!";
                        self.durable[i] = set[s.below(set.len())];
                    }
                    st.hit("fault.stray_write");
                }
            }
            _ => { // crash between truncate and write
                st.hit("fault.crash_after_truncate");
                self.durable = vec![];
            }
        }
        Outcome::Faulted
    }
    /// Read the file into text the way applications do.
    pub fn read(&self, s: &mut Src, st: &mut Stats, fault: bool) -> (String, Outcome) {
        let mut b = &self.durable[..];
        let mut out = Outcome::Clean;
        if fault {
            let n = s.below(b.len() + 1);
            b = &b[..n];
            st.hit("fault.short_read");
            out = Outcome::Faulted;
        }
        match std::str::from_utf8(b) {
            Ok(t) => (t.to_string(), out),
            Err(e) => {
                st.hit("fault.invalid_utf8");
                let t = if s.chance(1, 2) { String::from_utf8_lossy(b).into_owned() }
                    else { String::from_utf8_lossy(&b[..e.valid_up_to()]).into_owned() };
                (t, Outcome::Faulted)
            }
        }
    }
}
