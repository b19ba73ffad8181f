//! A tape of choices: every random decision of a generator is one entry, so that a case is
//! a pure function of its tape, and a failing case is shrunk by editing the tape.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x1234_5678);
    for p in parts {
        r.0 ^= *p;
        r.0 = r.next();
    }
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a over 8-byte lanes followed by a finaliser; only used to count distinct cases.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64);
    let mut ch = b.chunks_exact(8);
    for c in &mut ch {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    for c in ch.remainder() {
        h = (h ^ u64::from(*c)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    Rng::new(h).next()
}

enum Src {
    Random(Rng),
    Replay(Vec<u64>),
    /// Given choices first, random ones after.
    Prefixed(Vec<u64>, Rng),
}

pub struct Tape {
    src: Src,
    pub record: Vec<u64>,
    /// Told every choice as it is made (to survive a crash).
    pub echo: Option<Box<dyn FnMut(u64)>>,
    pos: usize,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { src: Src::Random(Rng::new(seed)), record: Vec::new(), echo: None, pos: 0 }
    }
    pub fn prefixed(first: Vec<u64>, seed: u64) -> Tape {
        Tape { src: Src::Prefixed(first, Rng::new(seed)), record: Vec::new(), echo: None, pos: 0 }
    }
    pub fn replay(choices: Vec<u64>) -> Tape {
        Tape { src: Src::Replay(choices), record: Vec::new(), echo: None, pos: 0 }
    }

    /// A choice in 0..n (n > 0). When replaying, an exhausted tape gives 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.src {
            Src::Random(r) => {
                let x = r.next();
                if n == u64::MAX { x } else { ((x as u128 * n as u128) >> 64) as u64 }
            }
            Src::Prefixed(c, r) => match c.get(self.pos) {
                Some(v) => (*v).min(n - 1),
                None => {
                    let x = r.next();
                    if n == u64::MAX { x } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
            },
            Src::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.record.push(v);
        if let Some(f) = &mut self.echo {
            f(v);
        }
        v
    }
    pub fn bits(&mut self, n: u32) -> u64 {
        if n >= 64 { self.below(u64::MAX) } else { self.below(1u64 << n) }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; the simplest choice (0) is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights; index 0 should be the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < u64::from(*x) {
                return i;
            }
            v -= u64::from(*x);
        }
        0
    }
    /// A number worth trying that is at most `max`: a literal of the sources or a power of two, or
    /// one beside it.
    pub fn num(&mut self, max: u64) -> u64 {
        let nums = &crate::dict::get().nums;
        let v = match self.below(3) {
            0 => {
                let k = self.below(64 - u64::from(max.leading_zeros().min(63)));
                1u64 << k
            }
            1 => nums[self.us(nums.len())],
            _ => {
                // the larger ones are rarer, and more telling
                let from = nums.partition_point(|x| *x < 32);
                let to = nums.partition_point(|x| *x <= max);
                if from < to { nums[from + self.us(to - from)] } else { nums[self.us(nums.len())] }
            }
        };
        let v = match self.below(6) {
            4 => v.wrapping_sub(1),
            5 => v.wrapping_add(1),
            _ => v,
        };
        if max == u64::MAX || v <= max { v } else { v % (max + 1) }
    }
    /// A u16 with boundary values over-represented.
    pub fn b16(&mut self) -> u16 {
        match self.below(9) {
            8 => self.num(0xffff) as u16,
            0..=2 => self.below(6) as u16,
            3 => *self.pick(&[127u16, 128, 129, 254, 255, 256, 257, 511, 512]),
            4 => *self.pick(&[0x7ffeu16, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff, 0x00ff, 0x0100]),
            _ => self.bits(16) as u16,
        }
    }
    pub fn b8(&mut self) -> u8 {
        match self.below(5) {
            4 => self.num(0xff) as u8,
            0 => self.below(4) as u8,
            1 => *self.pick(&[126u8, 127, 128, 129, 253, 254, 255]),
            _ => self.bits(8) as u8,
        }
    }
    pub fn b32(&mut self) -> u32 {
        match self.below(7) {
            6 => self.num(0xffff_ffff) as u32,
            0 => self.below(8) as u32,
            1 => *self.pick(&[
                0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x8000_0001, 0x0000_ffff, 0x0001_0000,
                0x0000_8000, 0x00ff_ffff, 0x0100_0000, 0x7fc0_0000, 0x7f80_0001, 0xff80_0000, 0x7f80_0000, 0x7fa0_0000,
            ]),
            2 => self.bits(16) as u32,
            3 => (self.bits(8) as u32) << (8 * self.below(4)),
            _ => self.bits(32) as u32,
        }
    }
    pub fn b64(&mut self) -> u64 {
        match self.below(7) {
            6 => self.num(u64::MAX),
            0 => self.below(8),
            1 => *self.pick(&[
                0x7fff_ffff_ffff_ffffu64, 0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1, 0xffff_ffff, 0x1_0000_0000,
                0x8000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0000,
                0x7ff4_0000_0000_0000, 0xffff_ffff_0000_0000,
            ]),
            2 => u64::from(self.b32()),
            3 => u64::from(self.b32()) << 32,
            _ => self.bits(64),
        }
    }
    /// A small count, occasionally moderately large.
    pub fn count(&mut self, small: usize) -> usize {
        match self.below(16) {
            0..=12 => self.us(small + 1),
            13 | 14 => self.us(2 * small + 1),
            _ => self.us(8 * small + 1),
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.us(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Minimise a failing tape. `fails` reruns the case and returns the tape as actually consumed
/// (possibly shorter) when it still fails the same way.
pub fn shrink(start: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut evals = 0usize;
    let mut improved = true;
    fn better(a: &[u64], b: &[u64]) -> bool {
        if a.len() != b.len() {
            return a.len() < b.len();
        }
        a < b
    }
    while improved && evals < budget {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if evals >= budget {
                    break;
                }
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    evals += 1;
                    if let Some(c) = fails(&cand) {
                        if better(&c, &best) {
                            best = c;
                            improved = true;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 || evals >= budget {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && evals < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..end] {
                        *x = 0;
                    }
                    evals += 1;
                    if let Some(c) = fails(&cand) {
                        if better(&c, &best) {
                            best = c;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 || evals >= budget {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && evals < budget {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut tries = 0;
            while lo < hi && evals < budget && tries < 8 {
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                evals += 1;
                match fails(&cand) {
                    Some(c) if better(&c, &best) => {
                        best = c;
                        improved = true;
                        if i >= best.len() {
                            break;
                        }
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, evals)
}
