//! Choice-sequence source: every generated case is a function of a sequence of bounded integers.
//! The same generator code runs from a PRNG (recording) or from a recorded sequence (replaying, with
//! zeros past its end), so a failing case is stored, shrunk and replayed as the sequence alone.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0x2545f4914f6cdd1d) ^ b.rotate_left(29));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    replay: Vec<u64>,
    pos: usize,
    pub limit: usize,
    /// draws are also appended here as they happen (to recover the choices of a case that dies)
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), rec: vec![], replay: vec![], pos: 0, limit: 400_000, log: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { rng: None, rec: vec![], replay: v, pos: 0, limit: 400_000, log: None }
    }
    /// the given choices first, random ones after them
    pub fn preset(v: Vec<u64>, seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), rec: vec![], replay: v, pos: 0, limit: 400_000, log: None }
    }
    /// uniform in 0..n (n == 0 means the full 64-bit range)
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match (self.replay.get(self.pos), &mut self.rng) {
            (Some(&v), _) => {
                if n == 0 || v < n {
                    v
                } else {
                    v % n
                }
            }
            (None, Some(r)) => {
                let raw = r.next();
                if n == 0 {
                    raw
                } else {
                    ((raw as u128 * n as u128) >> 64) as u64
                }
            }
            (None, None) => 0,
        };
        self.pos += 1;
        if self.rec.len() < self.limit {
            self.rec.push(v);
            if let Some(f) = &mut self.log {
                use std::io::Write;
                f.write_all(&v.to_le_bytes()).ok();
            }
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        // inclusive
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    /// weighted choice of index
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    /// interesting 64-bit value: boundaries, small, near powers of two, random
    pub fn val(&mut self) -> u64 {
        match self.below(9) {
            0 => self.below(4),
            1 => (self.below(40) as i64 - 20) as u64,
            2 => *self.pick(&[
                0,
                1,
                u64::MAX,
                0x8000_0000_0000_0000,
                0x7fff_ffff_ffff_ffff,
                0x8000_0000,
                0x7fff_ffff,
                0xffff_ffff,
                0xffff_ffff_8000_0000,
                0xffff_ffff_7fff_ffff,
                0x1_0000_0000,
                0x8000,
                0x7fff,
                0xffff,
                0x80,
                0x7f,
                0xff,
                0x8000_0000_8000_0000,
                0x0101_0101_0101_0101,
                0xff00_ff00_ff00_ff00,
                0x5555_5555_5555_5555,
                0xaaaa_aaaa_aaaa_aaaa,
            ]),
            3 => {
                let k = self.below(64);
                let d = self.below(5) as i64 - 2;
                (1u64 << k).wrapping_add(d as u64)
            }
            4 => self.u64() & 0xffff_ffff,
            5 => (self.u64() as i32) as i64 as u64,
            6 => {
                let s = self.below(64);
                self.u64() >> s
            }
            7 => {
                // sparse bits
                let a = self.u64();
                let b = self.u64();
                if self.bool() {
                    a & b
                } else {
                    a | b
                }
            }
            _ => self.u64(),
        }
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
}
