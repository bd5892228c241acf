//! The single source of every decision of a run.
//!
//! A run is a pure function of the sequence of numbers it draws here: in random mode they come
//! from a PRNG seeded by (VERIF_SEED, property, run index), in replay mode from a file. Zero is
//! always the simplest alternative, so that the minimiser can lower and delete draws.

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Stateless mix, used for decisions that are derived from one draw and an index.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

/// Draws are copied here as they happen, for runs that end the process.
pub struct Spill {
    pub count: *mut u64,
    pub data: *mut u64,
    pub cap: u64,
}
unsafe impl Send for Spill {}

pub struct Src {
    pub spill: Option<Spill>,
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    /// what was drawn
    pub rec: Vec<u64>,
    /// closed and open spans (start, end) of draws that belong to one step
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { spill: None, state: seed, replay: None, pos: 0, rec: vec![], spans: vec![], open: vec![] }
    }

    pub fn replay(values: Vec<u64>) -> Self {
        Src { spill: None, state: 0, replay: Some(values), pos: 0, rec: vec![], spans: vec![], open: vec![] }
    }

    fn record(&mut self, v: u64) {
        if let Some(s) = &self.spill {
            let n = self.rec.len() as u64;
            if n < s.cap {
                unsafe {
                    s.data.add(n as usize).write_volatile(v);
                    s.count.write_volatile(n + 1);
                }
            }
        }
        self.rec.push(v);
    }

    /// uniform in 0..n
    pub fn choose(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v.min(n - 1)
                }
            }
            None => {
                let v = splitmix(&mut self.state);
                if n == 0 {
                    v
                } else {
                    // the bias is irrelevant for the sizes used here
                    ((v as u128 * n as u128) >> 64) as u64
                }
            }
        };
        self.pos += 1;
        self.record(v);
        v
    }

    /// a full 64 bit value
    pub fn bits(&mut self) -> u64 {
        self.choose(0)
    }

    /// true in `num` of `den` cases, false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // only the outcome is recorded, so that the minimiser can turn it off
        let v = self.choose_weighted(&[den - num, num]);
        v == 1
    }

    /// index with the given weights, 0 is the simplest
    pub fn choose_weighted(&mut self, w: &[u64]) -> usize {
        let v = match &self.replay {
            Some(r) => {
                let i = r.get(self.pos).copied().unwrap_or(0).min(w.len() as u64 - 1);
                // an alternative of weight zero is off in this configuration
                match w[i as usize] {
                    0 => w.iter().position(|w| *w > 0).unwrap_or(0) as u64,
                    _ => i,
                }
            }
            None => {
                let total: u64 = w.iter().sum();
                let raw = splitmix(&mut self.state);
                let mut t = ((raw as u128 * total as u128) >> 64) as u64;
                let mut i = 0;
                while t >= w[i] {
                    t -= w[i];
                    i += 1;
                }
                i as u64
            }
        };
        self.pos += 1;
        self.record(v);
        v as usize
    }

    /// in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.choose(hi - lo + 1)
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.choose(v.len() as u64) as usize;
        &v[i]
    }

    /// small numbers are more likely, at most max
    pub fn small(&mut self, max: u64) -> u64 {
        let hi = match self.choose_weighted(&[4, 3, 2, 1]) {
            0 => 2.min(max),
            1 => 5.min(max),
            2 => (max / 2).max(1).min(max),
            _ => max,
        };
        self.choose(hi + 1)
    }

    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }

    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            let e = self.rec.len();
            if e > s {
                self.spans.push((s, e));
            }
        }
    }
}
