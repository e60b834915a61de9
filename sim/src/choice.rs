//! The single source of every decision of a run. Decision 0 is always the benign one (no fault, keep
//! running the same thread, smallest delay), so a run is its list of non-zero decisions.

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { (((self.next() >> 11) as u128 * n as u128) >> 53) as u64 }
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w) ^ (c.len() as u64) << 56).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 32;
    }
    h
}

/// Where decisions come from.
pub enum Source {
    Search(Rng),
    Replay(Vec<u64>),
}

pub struct Choices {
    pub src: Source,
    pub log: Vec<u64>,
    /// Entropy handed to the simulated system (getrandom); fixed by the run, not minimised.
    pub entropy: Rng,
}

impl Choices {
    pub fn new(src: Source, entropy_seed: u64) -> Self {
        Choices { src, log: Vec::new(), entropy: Rng(entropy_seed ^ 0xE17A_0F1D_55AA_1234) }
    }
    /// A decision in `0..n`; non-zero with probability `p` when searching.
    pub fn weighted(&mut self, n: u64, p: f64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Search(r) => {
                if r.unit() < p { 1 + r.below(n - 1) } else { 0 }
            }
            Source::Replay(v) => v.get(self.log.len()).copied().unwrap_or(0) % n,
        };
        self.log.push(v);
        v
    }
    /// A uniform decision in `0..n`.
    pub fn uniform(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Search(r) => r.below(n),
            Source::Replay(v) => v.get(self.log.len()).copied().unwrap_or(0) % n,
        };
        self.log.push(v);
        v
    }
    /// An expensive-to-log decision taken from a geometric law with mean `mean`; 0 means "never".
    pub fn gap(&mut self, mean: u64) -> u64 {
        let v = match &mut self.src {
            Source::Search(r) => {
                let u = r.unit().max(1e-12);
                1 + (-(u.ln()) * mean as f64) as u64
            }
            Source::Replay(v) => v.get(self.log.len()).copied().unwrap_or(0),
        };
        self.log.push(v);
        v
    }
}
