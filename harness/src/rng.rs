//! Seeded generator (xoshiro256**), every random choice of a run comes from here.

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut x = seed ^ stream.wrapping_mul(0xd1342543de82ef95).rotate_left(17);
        Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.u64() as u128 % span) as i128) as i64
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// byte string with repetitive, textual or random structure
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.below(4) {
            0 => self.bytes(n),
            1 => {
                let b = self.u64() as u8;
                vec![b; n]
            }
            2 => {
                let k = self.range(1, 40);
                let unit = self.bytes(k);
                unit.iter().cycle().take(n).cloned().collect()
            }
            _ => (0..n).map(|_| b"abcdefgh \r\n0123456789=&-"[self.below(24)]).collect(),
        }
    }
    /// sizes biased to small values and to buffer boundaries (the code reads in chunks of 1024)
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=4 => self.range(1, 64),
            5 => 1024 * self.range(1, 4),
            6 => (1024 * self.range(1, 4)) as usize - self.range(0, 2),
            7 => 1024 * self.range(1, 4) + 1,
            8 => self.range(0, 5000),
            _ => self.range(0, max.max(1)),
        };
        n.min(max)
    }
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        let mut s = String::new();
        for _ in 0..n {
            let c = *self.pick(alphabet);
            s.push(c);
            // a '%' is often the beginning of what somebody might take for an encoded character
            if c == '%' && self.chance(1, 2) {
                s.push_str(self.pick(&["20", "2F", "2f", "3A", "3D", "26", "40", "25", "00", "2E", "41", "61", "0A", "0d%0a", "C3%BC", "c3"]));
            }
        }
        s
    }
    /// the text with something in it that other conventions give a meaning (none of it contains a separator)
    pub fn spice(&mut self, s: &str) -> String {
        let x = *self.pick(&["%20", "%2F", "%3A", "%3D", "%40", "%25", "%00", "%2e%2E", "%41", "%C3%BC", "+", "..", ".", "~", "$HOME", "${x}", "{}", "!", "#", "|", "*", "<b>", "u0041", "0x41", "null", "\u{feff}", "e\u{301}", "\u{202e}", "ß", "İ", "\u{0}"]);
        let mut c: Vec<char> = s.chars().collect();
        let at = self.range(0, c.len());
        for (i, x) in x.chars().enumerate() {
            c.insert(at + i, x)
        }
        c.into_iter().collect()
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
