//! Deterministic generator (xoshiro256**), independent of the code under test.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Numbers found in the source under test (environment MON_DICT "new,..;other,.."), with their neighbours.
/// They direct part of the draws; see check.py.
pub struct Dict {
    pub new: Vec<u64>,
    pub all: Vec<u64>,
    /// tryte words, as trits
    pub words: Vec<Vec<u8>>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let s = std::env::var("MON_DICT").unwrap_or_default();
        let (a, b) = s.split_once(';').unwrap_or(("", ""));
        let (b, w) = b.split_once(';').unwrap_or((b, ""));
        let words = w.split(',').filter(|x| !x.is_empty()).map(word).collect();
        let p = |s: &str| -> Vec<u64> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
        let near = |v: &[u64], more: bool| {
            let mut r = vec![];
            for x in v {
                r.extend([*x, *x, x - 1, x + 1]);
                if more {
                    r.extend([3 * x, 3 * x + 1, 3 * x - 1]);
                }
            }
            r
        };
        let (n, o) = (p(a), p(b));
        let mut all = near(&o, false);
        all.extend(near(&n, true));
        Dict { new: near(&n, true), all, words }
    })
}

/// trits of a tryte word
fn word(w: &str) -> Vec<u8> {
    let mut o = vec![];
    for x in w.bytes() {
        let mut v = if x == b'9' { 0 } else { (x - b'A' + 1) as u32 };
        for _ in 0..3 {
            o.push((v % 3) as u8);
            v /= 3;
        }
    }
    o
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            *x = mix(z);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    fn uni(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// a number of the dictionary in a..=b, if it has any and a die of so many faces says so
    fn hint(&mut self, new: bool, a: u64, b: u64, faces: usize) -> Option<u64> {
        let d = dict();
        let v = if new { &d.new } else { &d.all };
        if v.is_empty() || self.uni(faces) != 0 {
            return None;
        }
        for _ in 0..4 {
            let x = v[self.uni(v.len())];
            if x >= a && x <= b {
                return Some(x);
            }
        }
        None
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        if n > 12 && !dict().new.is_empty() {
            if let Some(x) = self.hint(true, 0, n as u64 - 1, 16) {
                return x as usize;
            }
        }
        self.uni(n)
    }
    /// in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if b - a > 3 && !dict().new.is_empty() {
            if let Some(x) = self.hint(true, a as u64, b as u64, 12) {
                return x as usize;
            }
        }
        a + self.uni(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        if b - a > 3 && b > 0 && !dict().new.is_empty() {
            if let Some(x) = self.hint(true, a.max(0) as u64, b as u64, 12) {
                let x = x as i64;
                return if self.u64() & 1 == 0 && -x >= a { -x } else { x };
            }
        }
        a + self.uni((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.uni(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.uni(v.len());
        &v[i]
    }
    pub fn trit(&mut self) -> u8 {
        self.uni(3) as u8
    }
    pub fn trits(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.random_trits(n);
        if !dict().new.is_empty() && n >= 3 {
            if let Some(x) = self.hint(true, 0, u64::MAX, 12) {
                // the number, in balanced trits, somewhere
                let w = *self.pick(&[3usize, 6, 9, 18]);
                if w <= n {
                    let at = match self.uni(4) {
                        0 => 0,
                        1 => n - w,
                        2 => self.uni((n - w) / 3 + 1) * 3,
                        _ => self.uni(n - w + 1),
                    };
                    let neg = self.u64() & 1 == 0;
                    let mut x = x;
                    for t in v[at..at + w].iter_mut() {
                        let d = (x % 3) as u8;
                        x = (x + 1) / 3;
                        *t = if neg { (3 - d) % 3 } else { d };
                    }
                }
            }
        }
        let ws = &dict().words;
        if !ws.is_empty() && n >= 3 && self.uni(8) == 0 {
            let mut w = ws[self.uni(ws.len())].clone();
            match self.uni(4) {
                0 => {
                    // again and again
                    while w.len() < n {
                        w.extend_from_within(..);
                    }
                }
                _ => {}
            }
            // long strings (identifiers, keys) stay different from each other
            w.truncate(if n < 60 { n } else { n - 45 });
            let at = if self.uni(2) == 0 { 0 } else { self.uni((n - w.len()) / 3 + 1) * 3 };
            v[at..at + w.len()].copy_from_slice(&w);
        }
        v
    }
    fn random_trits(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let mut x = self.u64();
            for _ in 0..20 {
                if v.len() == n {
                    break;
                }
                v.push((x % 3) as u8);
                x /= 3;
            }
        }
        v
    }
    /// trits with structure: uniform, all-equal, sparse
    pub fn trits_biased(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![1; n],
            2 => vec![2; n],
            3 => {
                let mut v = vec![0; n];
                if n > 0 {
                    for _ in 0..self.range(1, 3) {
                        let i = self.below(n);
                        v[i] = 1 + self.below(2) as u8;
                    }
                }
                v
            }
            _ => self.trits(n),
        }
    }
    /// size in 0..=max biased to 0, 1, and multiples of the sponge block sizes (+-2)
    pub fn size(&mut self, max: usize) -> usize {
        if let Some(x) = self.hint(true, 0, max as u64, 8).or_else(|| self.hint(false, 0, max as u64, 12)) {
            return x as usize;
        }
        let v = match self.below(6) {
            0 => self.below(4),
            1 => {
                let b = *self.pick(&[3usize, 9, 27, 81, 162, 234, 243, 486, 729, 972]);
                let k = self.below(max / b + 1);
                (k * b + self.below(5)).saturating_sub(2)
            }
            2 => {
                let k = self.below(max / 486 + 1);
                (k * 486 + self.below(3)).saturating_sub(1)
            }
            3 => self.below(60),
            _ => self.below(max + 1),
        };
        v.min(max)
    }
    /// Like `size`, with a thin tail up to 16 times as long, biased to powers of two and three.
    pub fn tail(&mut self, max: usize) -> usize {
        if let Some(x) = self.hint(true, 0, 16 * max as u64, 10) {
            return x as usize;
        }
        if !self.chance(1, 12) {
            return self.size(max);
        }
        let top = 16 * max;
        let v = match self.below(4) {
            0 => {
                let k = self.range(8, 16);
                (1usize << k) + self.below(3) - 1
            }
            1 => {
                let k = self.range(5, 10) as u32;
                3usize.pow(k) + self.below(3) - 1
            }
            2 => max + self.below(max + 1),
            _ => self.below(top + 1),
        };
        if v > top {
            self.below(top + 1)
        } else {
            v
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.uni(i + 1);
            v.swap(i, j);
        }
    }
}

/// Several changes to a string that might make up for each other: returns what was done (perhaps nothing).
pub fn mangle(r: &mut Rng, v: &mut [u8]) -> String {
    let n = v.len();
    if n == 0 {
        return "nothing".into();
    }
    let i = r.below(n);
    match r.below(9) {
        0 | 1 => {
            // one place and another at a distance that is round in the formats or anywhere
            let d = *r.pick(&[1usize, 2, 3, 9, 18, 27, 81, 162, 243, 486, 13122]);
            let j = if r.chance(1, 2) && i + d < n { i + d } else { r.below(n) };
            let k = r.range(1, 9.min(n - i.max(j)));
            let (a, b) = *r.pick(&[(1u8, 2u8), (1, 1), (2, 2)]);
            for x in 0..k {
                v[i + x] = (v[i + x] + a) % 3;
                v[j + x] = (v[j + x] + b) % 3;
            }
            format!("{} trits at {} and at {} altered", k, i, j)
        }
        2 => {
            let j = r.below(n);
            let k = r.range(1, 243.min(n - i.max(j)));
            for x in 0..k {
                v.swap(i + x, j + x);
            }
            format!("{} trits at {} and at {} exchanged", k, i, j)
        }
        3 => {
            let k = r.range(1, 486.min(n - i));
            for t in v[i..i + k].iter_mut() {
                *t = (3 - *t) % 3;
            }
            format!("{} trits from {} negated", k, i)
        }
        4 => {
            let k = r.range(1, 486.min(n - i));
            let t = r.below(3) as u8;
            v[i..i + k].fill(t);
            format!("{} trits from {} set to {}", k, i, t)
        }
        5 => {
            let k = r.range(1, 486.min(n - i));
            v[i..i + k].reverse();
            format!("{} trits from {} reversed", k, i)
        }
        6 => {
            let k = r.range(1, 486.min(n - i));
            let d = r.below(k);
            v[i..i + k].rotate_left(d);
            format!("{} trits from {} rotated by {}", k, i, d)
        }
        7 => {
            let d = *r.pick(&[3usize, 9, 27, 81, 162, 243, 486]);
            let a = 1 + r.below(2) as u8;
            for x in (i..n).step_by(d) {
                v[x] = (v[x] + a) % 3;
            }
            format!("every {}th trit from {} altered", d, i)
        }
        _ => {
            let k = r.range(2, 40);
            for _ in 0..k {
                let j = r.below(n);
                v[j] = r.below(3) as u8;
            }
            format!("up to {} trits altered", k)
        }
    }
}
