//! Every decision of a simulated run goes through `Choices`: either drawn from the run's seeded
//! generator and recorded, or taken from a recorded list. 0 is always the simplest alternative, so
//! that minimisation can delete, zero and halve recorded values.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub struct Choices {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// write every choice out as it is made (to recover those of a run that kills its process)
    mirror: bool,
}

impl Choices {
    pub fn seeded(seed: u64) -> Choices {
        Choices { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, rec: Vec::new(), mirror: std::env::var_os("DERSIM_MIRROR").is_some() }
    }
    pub fn replayed(v: Vec<u64>) -> Choices {
        Choices { rng: None, replay: v, pos: 0, rec: Vec::new(), mirror: false }
    }

    fn decide(&mut self, n: u64, draw: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => draw(r),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        let v = if n > 0 { v.min(n - 1) } else { v };
        self.rec.push(v);
        if self.mirror {
            eprintln!("{v}");
        }
        v
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.decide(n, |r| r.next() % n)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den (recorded as 0 or 1)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.decide(2, |r| (r.next() % den < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.decide(w.len() as u64, |r| {
            let mut x = r.next() % total;
            for (i, w) in w.iter().enumerate() {
                if x < *w as u64 {
                    return i as u64;
                }
                x -= *w as u64;
            }
            0
        }) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn raw(&mut self) -> u64 {
        self.decide(0, |r| r.next())
    }
    /// small number, geometric-like distribution, at most max
    pub fn small(&mut self, max: usize) -> usize {
        let n = max as u64 + 1;
        self.decide(n, |r| {
            let b = r.next() % 64;
            let lim = match b {
                0..=31 => 3,
                32..=47 => 8,
                48..=57 => 24,
                58..=61 => 80,
                _ => n,
            };
            r.next() % lim.min(n)
        }) as usize
    }
}
