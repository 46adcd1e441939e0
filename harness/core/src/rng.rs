//! Small deterministic generator (xoshiro256**), so every case is a pure
//! function of (seed, property, family, case index).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }

    pub fn for_case(seed: u64, prop: &str, family: &str, idx: u64) -> Rng {
        let mut h = hash_bytes(seed, prop.as_bytes());
        h = hash_bytes(h, family.as_bytes());
        h = hash_bytes(h, &idx.to_le_bytes());
        Rng::new(h)
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) as u128 * n as u128 >> 53) as usize
    }

    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }

    pub fn coin(&mut self) -> bool {
        self.next() & (1 << 40) != 0
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// heavy-tailed size in lo..=hi: mostly small, sometimes near hi
    pub fn heavy(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo;
        if span == 0 {
            return lo;
        }
        let r = self.below(100);
        let top = if r < 70 { span.min(3) } else if r < 90 { span.min(9) } else if r < 97 { span.min(34) } else { span };
        lo + self.below(top + 1)
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
