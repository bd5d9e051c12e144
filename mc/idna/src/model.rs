//! RFC 3492 and UTS #46 (10.0.0), written from their text: the model.
use mc_common::data;
use mc_common::nf::Nf;

const MAX: u64 = u32::MAX as u64;

pub fn adapt(delta: u64, points: u64, first: bool) -> u64 {
    let mut d = if first { delta / 700 } else { delta / 2 };
    d += d / points;
    let mut k = 0;
    while d > 455 {
        d /= 35;
        k += 36;
    }
    k + 36 * d / (d + 38)
}
pub fn threshold(k: u64, bias: u64) -> u64 {
    (k as i64 - bias as i64).clamp(1, 26) as u64
}

/// The encoding: the extended characters in the order of their code points, then of their
/// positions; each as the number of decoder states passed since the one before.
pub fn encode(s: &[char]) -> Option<String> {
    let mut out: String = s.iter().filter(|c| c.is_ascii()).collect();
    let basic = out.len() as u64;
    if basic > 0 {
        out.push('-');
    }
    let mut ext: Vec<(u64, usize)> = s.iter().enumerate().filter(|c| !c.1.is_ascii()).map(|(i, c)| (*c as u64, i)).collect();
    ext.sort();
    // Position of s[i] among the characters that the decoder has: those before i, and smaller.
    let place = |c: u64, i: usize| s.iter().enumerate().filter(|(j, d)| (**d as u64) < c && *j < i || (**d as u64) == c && *j < i).count() as u64;
    let (mut n, mut at, mut done, mut bias) = (0x80u64, 0u64, basic, 72);
    for (c, i) in ext {
        let p = place(c, i);
        // The decoder passes states (n, at), (n, at + 1) ... (n, done), (n + 1, 0) ...
        let delta = (c - n) * (done + 1) + p - at;
        if delta > MAX {
            return None;
        }
        let mut q = delta;
        for k in (1..).map(|j| 36 * j) {
            let t = threshold(k, bias);
            let digit = if q < t { q } else { t + (q - t) % (36 - t) };
            out.push(b"abcdefghijklmnopqrstuvwxyz0123456789"[digit as usize] as char);
            if q < t {
                break;
            }
            q = (q - t) / (36 - t);
        }
        bias = adapt(delta, done + 1, done == basic);
        done += 1;
        n = c;
        at = p + 1;
    }
    Some(out)
}

pub fn decode(s: &str) -> Option<Vec<char>> {
    let b = s.as_bytes();
    let (basic, rest) = match b.iter().rposition(|c| *c == b'-') {
        Some(0) | None => (&b[..0], b),
        Some(p) => (&b[..p], &b[p + 1..]),
    };
    if !basic.is_ascii() {
        return None;
    }
    let mut out: Vec<char> = basic.iter().map(|c| *c as char).collect();
    let (mut n, mut i, mut bias) = (0x80u64, 0u64, 72);
    let mut p = 0;
    while p < rest.len() {
        let old = i;
        let mut w = 1u64;
        for k in (1..).map(|j| 36 * j) {
            let d = match rest.get(p)? {
                c @ b'a'..=b'z' => c - b'a',
                c @ b'A'..=b'Z' => c - b'A',
                c @ b'0'..=b'9' => c - b'0' + 26,
                _ => return None,
            } as u64;
            p += 1;
            i += d * w;
            if i > MAX {
                return None;
            }
            let t = threshold(k, bias);
            if d < t {
                break;
            }
            w *= 36 - t;
            if w > MAX {
                return None;
            }
        }
        let len = out.len() as u64 + 1;
        bias = adapt(i - old, len, old == 0);
        n += i / len;
        i %= len;
        if n > MAX {
            return None;
        }
        out.insert(i as usize, char::from_u32(n as u32)?);
        i += 1;
    }
    Some(out)
}

#[derive(Clone, Copy, PartialEq)]
enum Status { Valid, Ignored, Mapped, Deviation, Disallowed, Std3Valid, Std3Mapped }
#[derive(Clone, Copy, PartialEq)]
enum Bc { L, R, AL, AN, EN, Neutral, NSM, Other }

pub struct Uts46 {
    nf: &'static Nf,
    status: Vec<(Status, Vec<char>)>,
    map: Vec<u16>,
    bc: Vec<Bc>,
    mark: Vec<bool>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F {
    pub std3: bool,
    pub trans: bool,
    pub len: bool,
}

impl Uts46 {
    pub fn load() -> &'static Uts46 {
        use Status::*;
        let t = data::table("idna.txt", "disallowed;");
        let status = t.values.iter().map(|v| {
            let (s, m) = v.split_once(';').unwrap();
            let s = match s {
                "valid" => Valid,
                "ignored" => Ignored,
                "mapped" => Mapped,
                "deviation" => Deviation,
                "disallowed" => Disallowed,
                "disallowed_STD3_valid" => Std3Valid,
                "disallowed_STD3_mapped" => Std3Mapped,
                _ => panic!("{s}"),
            };
            (s, m.split(' ').filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect())
        }).collect();
        let b = data::table("bidi_class.txt", "L");
        let bcs: Vec<Bc> = b.values.iter().map(|v| match v.as_str() {
            "L" => Bc::L,
            "R" => Bc::R,
            "AL" => Bc::AL,
            "AN" => Bc::AN,
            "EN" => Bc::EN,
            "NSM" => Bc::NSM,
            "ES" | "CS" | "ET" | "ON" | "BN" => Bc::Neutral,
            _ => Bc::Other,
        }).collect();
        let g = data::table("gc.txt", "Cn");
        let mark: Vec<bool> = g.values.iter().map(|v| matches!(v.as_str(), "Mn" | "Mc" | "Me")).collect();
        Box::leak(Box::new(Uts46 {
            nf: Nf::load(),
            status,
            bc: b.map.iter().map(|k| bcs[*k as usize]).collect(),
            mark: g.map.iter().map(|k| mark[*k as usize]).collect(),
            map: t.map,
        }))
    }
    fn status(&self, c: char) -> &(Status, Vec<char>) {
        &self.status[self.map[c as usize] as usize]
    }
    fn valid(&self, l: &[char], std3: bool, trans: bool) -> bool {
        l.is_empty()
            || self.nf.form(1, l) == l // V1
                && l[0] != '-' && l[l.len() - 1] != '-' // V3
                && !self.mark[l[0] as usize] // V5
                && l.iter().all(|c| match self.status(*c).0 { // V6
                    Status::Valid => true,
                    Status::Deviation => !trans,
                    Status::Std3Valid => !std3,
                    _ => false,
                })
    }
    /// RFC 5893, section 2.
    fn bidi(&self, l: &[char]) -> bool {
        use Bc::*;
        let c: Vec<Bc> = l.iter().map(|c| self.bc[*c as usize]).collect();
        if c.is_empty() {
            return true;
        }
        let end = c.iter().rev().find(|c| **c != NSM).copied();
        match c[0] {
            R | AL => {
                c.iter().all(|c| matches!(c, R | AL | AN | EN | Neutral | NSM))
                    && matches!(end, Some(R | AL | EN | AN))
                    && !(c.contains(&EN) && c.contains(&AN))
            }
            L => c.iter().all(|c| matches!(c, L | EN | Neutral | NSM)) && matches!(end, Some(L | EN)),
            _ => false,
        }
    }
    /// The labels, and whether there was no error.
    fn process(&self, d: &str, std3: bool, trans: bool) -> (Vec<Vec<char>>, bool) {
        let mut ok = true;
        let mut m = vec![];
        for c in d.chars() {
            let (s, to) = self.status(c);
            match s {
                Status::Valid => m.push(c),
                Status::Ignored => {}
                Status::Mapped => m.extend(to),
                Status::Deviation if trans => m.extend(to),
                Status::Deviation => m.push(c),
                Status::Std3Valid if !std3 => m.push(c),
                Status::Std3Mapped if !std3 => m.extend(to),
                _ => {
                    ok = false;
                    m.push(c)
                }
            }
        }
        let n = self.nf.form(1, &m);
        let mut labels = vec![];
        for l in n.split(|c| *c == '.') {
            let t: String = l.iter().collect();
            if let Some(a) = t.strip_prefix("xn--") {
                match decode(a) {
                    Some(u) => {
                        // A label that is an ACE label still would be decoded again elsewhere.
                        ok &= self.valid(&u, std3, false) && !u.starts_with(&['x', 'n', '-', '-']);
                        labels.push(u)
                    }
                    None => {
                        ok = false;
                        labels.push(l.to_vec())
                    }
                }
            } else {
                ok &= self.valid(l, std3, trans);
                labels.push(l.to_vec())
            }
        }
        if labels.iter().flatten().any(|c| matches!(self.bc[*c as usize], Bc::R | Bc::AL | Bc::AN)) {
            ok &= labels.iter().all(|l| self.bidi(l));
        }
        (labels, ok)
    }
    pub fn to_unicode(&self, d: &str, f: F) -> (String, bool) {
        let (l, ok) = self.process(d, f.std3, false);
        (l.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("."), ok)
    }
    pub fn to_ascii(&self, d: &str, f: F) -> Option<String> {
        let (l, mut ok) = self.process(d, f.std3, f.trans);
        let mut a = vec![];
        for l in l {
            if l.iter().all(|c| c.is_ascii()) {
                a.push(l.iter().collect::<String>())
            } else {
                a.push(format!("xn--{}", encode(&l)?))
            }
        }
        let s = a.join(".");
        if f.len {
            // Without the root label and its dot.
            if a.len() > 1 && a[a.len() - 1].is_empty() {
                a.pop();
            }
            let total: usize = a.iter().map(|l| l.len()).sum::<usize>() + a.len() - 1;
            ok &= (1..=253).contains(&total) && a.iter().all(|l| (1..=63).contains(&l.len()));
        }
        ok.then_some(s)
    }
}
