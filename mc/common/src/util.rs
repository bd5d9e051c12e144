use std::path::PathBuf;

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}
pub fn repo_root() -> PathBuf {
    PathBuf::from(std::env::var("REPO_ROOT").unwrap_or_else(|_| "/repo".to_string()))
}

/// `(key, what)` of the findings recorded for this property.
/// Line format: `known: property=<id> key=<key> :: <what>`.
pub fn known_findings(property: &str) -> Vec<(String, String)> {
    let p = verif_root().join("known_findings.txt");
    let txt = std::fs::read_to_string(p).unwrap_or_default();
    let pre = format!("known: property={property} key=");
    txt.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(k, w)| (k.trim().to_string(), w.trim().to_string()))
        .collect()
}

/// Text as ASCII with \u{..} escapes.
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
            o.push(c);
        } else if (' '..='~').contains(&c) {
            o.push(c);
        } else {
            o.push_str(&format!("\\u{{{:x}}}", c as u32));
        }
    }
    o.push('"');
    o
}

/// Number of words of length `0..=k` over an alphabet of `n` symbols.
pub fn words_upto(n: u64, k: u32) -> u64 {
    (0..=k).map(|i| n.pow(i)).sum()
}
/// The `i`-th word, shortest first (shortlex).
pub fn word_at(n: u64, mut i: u64, out: &mut Vec<u8>) {
    out.clear();
    let mut len = 0u32;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    for _ in 0..len {
        out.push((i % n) as u8);
        i /= n;
    }
    out.reverse();
}
/// The `i`-th word of exactly length `k`.
pub fn word_k(n: u64, k: u32, mut i: u64, out: &mut Vec<u8>) {
    out.clear();
    for _ in 0..k {
        out.push((i % n) as u8);
        i /= n;
    }
    out.reverse();
}

pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Fnv {
    #[inline]
    pub fn u8(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
    }
    #[inline]
    pub fn u64(&mut self, v: u64) {
        for b in v.to_le_bytes() {
            self.u8(b)
        }
    }
    pub fn bytes(&mut self, v: &[u8]) {
        for b in v {
            self.u8(*b)
        }
    }
}
pub fn hash_bytes(v: &[u8]) -> u64 {
    let mut f = Fnv::default();
    f.bytes(v);
    f.0
}

/// Every Unicode scalar value, by dense index `0..0x10F800`.
pub const N_SCALARS: u64 = 0x110000 - 0x800;
pub fn scalar_at(i: u64) -> char {
    let i = i as u32;
    char::from_u32(if i < 0xD800 { i } else { i + 0x800 }).unwrap()
}
pub fn scalar_index(c: char) -> u32 {
    let v = c as u32;
    if v < 0xD800 {
        v
    } else {
        v - 0x800
    }
}

/// A word among fillers, wherever it may fall in the blocks of code that works on several bytes at a time.
pub fn padded<T: Copy>(fill: T, word: &[T], mut f: impl FnMut(&[T])) {
    for before in 0..=17 {
        for after in [0, 1, 7, 8, 9, 16] {
            let mut s = vec![fill; before];
            s.extend(word);
            s.extend(std::iter::repeat(fill).take(after));
            f(&s)
        }
    }
}
/// Which letters of a word of four are repeated: one, both in the middle, both ends, all.
const STRETCHED: [u32; 7] = [1, 2, 4, 8, 6, 9, 15];
/// Number of words of four letters out of `n`, times the ways to stretch them.
pub fn stretched_size(n: u64) -> u64 {
    STRETCHED.len() as u64 * n.pow(4)
}
/// The `i`-th word of four letters out of `n`, some of its letters repeated `count` times.
pub fn stretched(n: u64, i: u64, count: usize) -> Vec<u8> {
    let (m, mut v) = (STRETCHED[i as usize % STRETCHED.len()], vec![]);
    word_k(n, 4, i / STRETCHED.len() as u64, &mut v);
    v.iter().enumerate().flat_map(|(j, x)| std::iter::repeat(*x).take(if m >> j & 1 == 1 { count } else { 1 })).collect()
}
pub const STRETCHES: &str = "with one, both middle, both outer or all of its letters repeated n times";
/// Number of words of length `k` over `n` letters, times the fillers.
pub fn spread_size(n: u64, k: u32, fillers: usize) -> u64 {
    fillers as u64 * n.pow(k)
}
/// The `i`-th word of length `k`, `count` of one filler between each letter and the next.
pub fn spread(n: u64, k: u32, i: u64, fillers: &[u8], count: usize) -> Vec<u8> {
    let (f, mut v) = (fillers[i as usize % fillers.len()], vec![]);
    word_k(n, k, i / fillers.len() as u64, &mut v);
    let mut out = vec![];
    for (j, x) in v.into_iter().enumerate() {
        if j > 0 {
            out.extend(std::iter::repeat(f).take(count));
        }
        out.push(x);
    }
    out
}
pub const PADDED: &str = "after 0 to 17 of one filler and before 0, 1, 7, 8, 9 or 16 of it";
