//! The choice tape: every nondeterministic decision of a simulated execution is one entry.
//! In generation mode entries come from a PRNG seeded by one integer; in replay mode they come
//! from the recorded list (0 past its end, and 0 always stands for the simplest choice).

#[derive(Clone)]
pub struct Prng(u64);
impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

pub struct Tape {
    rng: Option<Prng>,
    given: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
    pub overflow: bool,
}

pub const MAX_TAPE: usize = 4_000_000;

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { rng: Some(Prng::new(seed)), given: vec![], pos: 0, rec: vec![], overflow: false }
    }
    pub fn replay(given: Vec<u32>) -> Self {
        Tape { rng: None, given, pos: 0, rec: vec![], overflow: false }
    }
    /// A number below n (n >= 1).
    pub fn choose(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let n32 = n.min(u32::MAX as u64) as u32;
        if self.rec.len() >= MAX_TAPE {
            self.overflow = true;
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => (r.next() % n32 as u64) as u32,
            None => {
                let v = self.given.get(self.pos).copied().unwrap_or(0);
                if v >= n32 { v % n32 } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v as u64
    }
    /// True with probability num/den; 0 on the tape is always "false".
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.choose(den) >= den - num.min(den)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.choose(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.choose(v.len() as u64) as usize;
        &v[i]
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
}
