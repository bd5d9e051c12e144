//! Normalization after UAX #15 and section 3.11 of the Unicode Standard, over the reference data: the model.

use crate::data;
use crate::util::*;
use std::collections::HashMap;

pub struct Nf {
    d: [HashMap<char, Vec<char>>; 2],
    ccc: Vec<u8>,
    pairs: HashMap<(char, char), char>,
}

fn chars(s: &str) -> Vec<char> {
    s.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()
}
const S: u32 = 0xAC00;
const L: u32 = 0x1100;
const V: u32 = 0x1161;
const T: u32 = 0x11A7;
fn ch(u: u32) -> char {
    char::from_u32(u).unwrap()
}

impl Nf {
    pub fn load() -> &'static Nf {
        let get = |n| {
            let mut m = HashMap::new();
            for (a, b, v) in data::lines(n) {
                for c in a..=b {
                    m.insert(ch(c), chars(&v));
                }
            }
            m
        };
        let mut ccc = vec![0; 0x110000];
        for (a, b, v) in data::lines("ccc.txt") {
            for c in a..=b {
                ccc[c as usize] = v.parse().unwrap();
            }
        }
        let mut pairs = HashMap::new();
        for (a, b, v) in data::lines("compose.txt") {
            assert_eq!(a, b);
            let p = chars(&v);
            pairs.insert((p[0], p[1]), ch(a));
        }
        Box::leak(Box::new(Nf { d: [get("nfd.txt"), get("nfkd.txt")], ccc, pairs }))
    }
    pub fn ccc(&self, c: char) -> u8 {
        self.ccc[c as usize]
    }
    pub fn pairs(&self) -> &HashMap<(char, char), char> {
        &self.pairs
    }
    pub fn full(&self, c: char, compat: bool, out: &mut Vec<char>) {
        let u = c as u32;
        if (S..S + 11172).contains(&u) {
            let s = u - S;
            out.push(ch(L + s / 588));
            out.push(ch(V + s % 588 / 28));
            if s % 28 != 0 {
                out.push(ch(T + s % 28));
            }
        } else if let Some(d) = self.d[compat as usize].get(&c) {
            out.extend(d)
        } else {
            out.push(c)
        }
    }
    pub fn compose(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (L..L + 19).contains(&x) && (V..V + 21).contains(&y) {
            return Some(ch(S + ((x - L) * 21 + (y - V)) * 28));
        }
        if (S..S + 11172).contains(&x) && (x - S) % 28 == 0 && (T + 1..T + 28).contains(&y) {
            return Some(ch(x + (y - T)));
        }
        self.pairs.get(&(a, b)).copied()
    }
    pub fn decomposed(&self, s: &[char], compat: bool) -> Vec<char> {
        let mut v = vec![];
        for c in s {
            self.full(*c, compat, &mut v);
        }
        // D109: exchange adjacent characters while the first has the greater, and the second a non-zero class.
        let mut i = 0;
        while i < v.len() {
            if self.ccc(v[i]) == 0 {
                i += 1;
                continue;
            }
            let a = i;
            while i < v.len() && self.ccc(v[i]) != 0 {
                i += 1;
            }
            v[a..i].sort_by_key(|c| self.ccc(*c));
        }
        v
    }
    pub fn composed(&self, s: &[char], compat: bool) -> Vec<char> {
        let v = self.decomposed(s, compat);
        let mut out: Vec<char> = vec![];
        let mut starter: Option<usize> = None;
        for c in v {
            let k = self.ccc(c);
            if let Some(s) = starter {
                // D115: blocked from the starter by a starter, or by a class not lower, in between.
                let blocked = out[s + 1..].iter().any(|b| self.ccc(*b) == 0 || self.ccc(*b) >= k);
                if !blocked {
                    if let Some(r) = self.compose(out[s], c) {
                        out[s] = r;
                        continue;
                    }
                }
            }
            if k == 0 {
                starter = Some(out.len());
            }
            out.push(c);
        }
        out
    }
    /// 0 NFD, 1 NFC, 2 NFKD, 3 NFKC
    pub fn form(&self, f: usize, s: &[char]) -> Vec<char> {
        match f {
            0 => self.decomposed(s, false),
            1 => self.composed(s, false),
            2 => self.decomposed(s, true),
            _ => self.composed(s, true),
        }
    }
}
pub const FORMS: [&str; 4] = ["NFD", "NFC", "NFKD", "NFKC"];
/// Characters with a distinct role in normalization.
pub const ALPHABET: &[char] = &[
    'a',          // composes with marks
    'b',          // inert starter
    '\u{301}',    // 230
    '\u{300}',    // 230, composes
    '\u{327}',    // 202, composes
    '\u{323}',    // 220, composes
    '\u{338}',    // 1, composes with symbols
    '\u{1100}',   // L
    '\u{1161}',   // V
    '\u{11a8}',   // T
    '\u{11a7}',   // T base: not a T
    '\u{ac00}',   // LV
    '\u{ac01}',   // LVT
    '\u{344}',    // decomposes to two marks, excluded from composition
    '\u{958}',    // composition exclusion
    '\u{212b}',   // singleton to a composite
    '\u{1e09}',   // two marks over a letter
    '\u{fdfa}',   // 18 characters in NFKD, with spaces
    '\u{fb01}',   // compatibility
    '\u{9c7}',    // starter, composes with a starter
    '\u{9be}',    // starter that composes with what precedes
    '\u{3099}',   // 8
    '\u{304b}',   // composes with it
    '\u{226}',    // composite that composes on
    '\u{1d15f}',  // musical: excluded, decomposes to starter + 216
    '\u{345}',    // 240
];

/// Letters with index in `w`.
pub fn letters(w: &[u8], alphabet: &[char]) -> Vec<char> {
    w.iter().map(|k| alphabet[*k as usize]).collect()
}
pub fn esc_chars(s: &[char]) -> String {
    esc(&s.iter().collect::<String>())
}
