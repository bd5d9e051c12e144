//! I01 (Punycode), I03 and I04 (UTS #46).
mod model;
use mc_common::util::*;
use mc_common::*;
use model::*;
use unic_idna::{to_ascii, to_unicode, Flags};
use unic_idna_punycode as puny;

fn text(s: &[char]) -> String {
    s.iter().collect()
}
fn pick(a: &[char], n: u64, i: u64) -> Vec<char> {
    let mut v = vec![];
    word_at(n, i, &mut v);
    v.iter().map(|k| a[*k as usize]).collect()
}

fn enc(s: &[char], w: &mut W) {
    let want = encode(s);
    w.state();
    w.steps(s.len());
    let k = || if s.len() > 64 { format!("encode {} characters ending in {}", s.len(), esc(&text(&s[s.len() - 4..]))) } else { format!("encode {}", esc(&text(s))) };
    let got = guard(|| puny::encode(s));
    if got != Ok(want.clone()) {
        return w.fail(k(), format!("implementation {}, model {}", short(&got), short(&want)));
    }
    w.trace();
    w.outcome(want.as_ref().map_or(0, |x| hash_bytes(x.as_bytes())));
    if s.len() <= 64 {
        w.eq(&guard(|| puny::encode_str(&text(s))), &Ok(want.clone()), k, "encode_str");
        if want.is_none() {
            w.fail(k(), "overflow on a short text");
        }
    }
    if let Some(x) = want {
        let back = guard(|| (puny::decode(&x), puny::decode_to_string(&x)));
        let t = text(s);
        if back != Ok((Some(s.to_vec()), Some(t.clone()))) {
            w.fail(k(), format!("does not decode to itself: {}", short(&back)));
        }
    }
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 200 { format!("{} ...", s.chars().take(200).collect::<String>()) } else { s }
}
fn dec(x: &str, w: &mut W) {
    let want = decode(x);
    w.state();
    w.steps(x.len());
    let k = || if x.len() > 200 { format!("decode {} bytes ending in {}", x.len(), esc(&x[x.len() - 8..])) } else { format!("decode {}", esc(x)) };
    let got = guard(|| puny::decode(x));
    if got != Ok(want.clone()) {
        return w.fail(k(), format!("implementation {}, model {}", short(&got), short(&want)));
    }
    w.trace();
    w.outcome(want.as_ref().map_or(0, |x| hash_bytes(text(x).as_bytes())));
    w.eq(&guard(|| puny::decode_to_string(x)), &Ok(want.as_ref().map(|c| text(c))), k, "decode_to_string");
    if let Some(c) = want {
        // What is accepted is what encoding gives, but for the case of the digits.
        let canon = match x.rfind('-') {
            Some(p) => format!("{}{}", &x[..p], x[p..].to_ascii_lowercase()),
            None => x.to_ascii_lowercase(),
        };
        w.eq(&guard(|| puny::encode(&c)), &Ok(Some(canon)), k, "encoding again");
    }
}

/// A Punycode text under construction, by its distances.
#[derive(Clone)]
struct Digits {
    text: String,
    len: usize,
    n: u64,
    i: u64,
    bias: u64,
    first: bool,
}
impl Digits {
    fn after(basic: usize) -> Self {
        let text = if basic > 0 { "b".repeat(basic) + "-" } else { String::new() };
        Digits { text, len: basic, n: 0x80, i: 0, bias: 72, first: true }
    }
    fn push(&mut self, delta: u64) {
        let mut q = delta;
        for k in (1..).map(|j| 36 * j) {
            let t = threshold(k, self.bias);
            let d = if q < t { q } else { t + (q - t) % (36 - t) };
            self.text.push(b"abcdefghijklmnopqrstuvwxyz0123456789"[d as usize] as char);
            if q < t {
                break;
            }
            q = (q - t) / (36 - t);
        }
        self.len += 1;
        self.bias = adapt(delta, self.len as u64, self.first);
        self.first = false;
        self.i += delta;
        self.n += self.i / self.len as u64;
        self.i = self.i % self.len as u64 + 1;
    }
}

fn i01(c: &mut Check) {
    const A: &[char] = &['a', 'Z', '-', '9', '\u{7f}', '\u{80}', '\u{e9}', '\u{3b1}', '\u{4e2d}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];
    let n = A.len() as u64;
    let len = by(5, 6);
    c.family("encode words", "every word over 12 characters to length 5 (thorough 6): encoded as the model, decoded to itself", words_upto(n, len), move |i, w| enc(&pick(A, n, i), w));
    const F: &[char] = &['a', '-', '\u{e9}', '\u{4e2d}'];
    c.family("encode aligned", &format!("every word of 1 or 2 over 12 characters {PADDED}: fillers {F:?}"), (n + n * n) * F.len() as u64, move |i, w| {
        padded(F[i as usize % F.len()], &pick(A, n, i / F.len() as u64 + 1), |s| enc(s, w))
    });
    c.family("encode every character", "every scalar value alone, twice, and beside basic and extended characters", N_SCALARS, |i, w| {
        let c = scalar_at(i);
        for s in [&[c][..], &[c, c], &['a', c], &[c, '\u{e9}'], &['\u{4e2d}', 'b', c]] {
            enc(s, w)
        }
    });
    c.family("encode runs", "n basic characters, then m of an extended one, then another (n, m <= 40)", 41 * 41 * 4, |i, w| {
        let (n, m, x) = (i % 41, i / 41 % 41, i / 41 / 41);
        let (a, b) = [('\u{e9}', '\u{ea}'), ('\u{4e2d}', '\u{e9}'), ('\u{10ffff}', '\u{80}'), ('\u{1f600}', '\u{10ffff}')][x as usize];
        let mut s = vec!['q'; n as usize];
        s.extend(vec![a; m as usize]);
        s.push(b);
        enc(&s, w)
    });
    c.family("encode long", "n basic characters (n around 2^8 and 2^16), with one or two extended ones before, between and behind", 12 * 4 * 4, |i, w| {
        let n = [250usize, 254, 255, 256, 257, 600, 32767, 32768, 65534, 65535, 65536, 70_000][(i % 12) as usize];
        let x = ['\u{e9}', '\u{3b1}', '\u{4e2d}', '\u{ac00}'][(i / 12 % 4) as usize];
        let mut s = vec!['q'; n];
        match i / 48 {
            0 => s.push(x),
            1 => s.insert(0, x),
            2 => {
                s.insert(n / 2, x);
                s.push('\u{ea}');
            }
            _ => {
                s.insert(n - 1, '\u{ea}');
                s.insert(1, x);
                s.push(x);
            }
        }
        enc(&s, w)
    });
    // (c - 0x80) * (n + 1) near 2^32: n basic characters, k of them before the extended one.
    let step = by(16, 1);
    c.family("encode overflow", "n basic characters (n of 3853..=5000, every 16th; thorough every one) around the one extended character that brings the distance nearest to 2^32, from below and above, at every position within 3 of overflow", (5000 - 3853) / step * 2, move |i, w| {
        let n = 3853 + i / 2 * step;
        let max = u32::MAX as u64;
        let cp = max / (n + 1) + i % 2;
        let Some(c) = u32::try_from(cp + 0x80).ok().and_then(char::from_u32) else { return };
        let base = cp * (n + 1);
        let mut ks = vec![0, 1, n - 1, n];
        if base <= max {
            ks.extend((0..7).map(|d| (max - base + d).saturating_sub(3)));
        }
        for k in ks {
            if k > n {
                continue;
            }
            let mut s = vec!['a'; k as usize];
            s.push(c);
            s.extend(vec!['a'; (n - k) as usize]);
            enc(&s, w);
        }
    });
    const D: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', 'A', 'Z', '.', ' ', '\u{e9}'];
    let n = D.len() as u64;
    let len = by(4, 5);
    c.family("decode words", "every text over the digits, the delimiter and 5 others to length 4 (thorough 5)", words_upto(n, len), move |i, w| dec(&text(&pick(D, n, i)), w));
    const S: &[char] = &['a', 'z', '9', 'Z', '-', '\u{e9}', '@'];
    let len = by(8, 9);
    c.family("decode longer words", "every text over 7 characters to length 8 (thorough 9)", words_upto(7, len), move |i, w| dec(&text(&pick(S, 7, i)), w));
    const O: &[char] = &['a', 'b', 'y', '9'];
    let len = by(10, 12);
    c.family("decode overflow", "every text over 4 digits to length 10 (thorough 12), after no and after 2 basic characters", words_upto(4, len), move |i, w| {
        let x = text(&pick(O, 4, i));
        dec(&x, w);
        dec(&format!("ab-{x}"), w);
    });
    c.family("decode every character", "every scalar value as a digit, as a basic character, and as both", N_SCALARS, |i, w| {
        let c = scalar_at(i);
        for x in [format!("{c}"), format!("{c}-"), format!("{c}-a"), format!("a-{c}"), format!("-{c}"), format!("a{c}-b{c}")] {
            dec(&x, w)
        }
    });
    const B: &[usize] = &[0, 1, 2, 7, 300];
    let r = by(5000, 500_000);
    c.family("decode limits", "a distance within 5000 (thorough 500000) of where the sum or the code point leaves 32 bits or the scalar values, after n basic characters (n of 0, 1, 2, 7, 300) and up to two extended ones at the ends, with and without another behind", 5 * 7 * 9, move |i, w| {
        let n = B[(i % 5) as usize];
        let before: &[&[u64]] = &[&[], &[0], &[1], &[0, 0], &[0, 5000], &[5000, 0], &[0x10_ff00, 1]];
        let mut d = Digits::after(n);
        for x in before[(i / 5 % 7) as usize] {
            d.push(*x);
        }
        let (len, m) = (d.len as u64 + 1, 1u64 << 32);
        let at = |c: u64| (c - d.n) * len - d.i;
        let near = match i / 35 {
            0 => m,
            1 => m - d.i,
            2 => m - d.n - d.i,
            3 => (m - d.n).saturating_mul(len).min(m) - d.i,
            4 => m / 2,
            5 => m / 2 - d.i,
            6 if d.n < 0xd800 => at(0xd800),
            7 if d.n < 0xd800 => at(0xe000),
            _ => at(0x11_0000),
        };
        for x in near.saturating_sub(r)..near + r {
            let mut e = d.clone();
            e.push(x);
            dec(&e.text, w);
            e.text.push('a');
            dec(&e.text, w);
        }
    });
    c.family("decode long", "a text of n characters repeated (n <= 2000): one digit, digit pairs, after basic characters", 2001 * 6, |i, w| {
        let n = (i / 6) as usize;
        let x = match i % 6 {
            0 => "a".repeat(n),
            1 => "9".repeat(n),
            2 => "4ca".repeat(n / 3),
            3 => format!("{}-a", "x".repeat(n)),
            4 => format!("{}-99999a", "x".repeat(n)),
            _ => format!("{}-", "-".repeat(n)),
        };
        dec(&x, w)
    });
}

/// Letters with a role in UTS #46.
const U: &[char] = &[
    'a', 'B', '1', '-', '.', '\u{3002}', '_', '\u{301}', 'e', '\u{e9}', '\u{df}', '\u{200d}', '\u{ad}', '\u{5d0}', '\u{627}', '\u{660}', '\u{6f0}',
    '\u{2135}', '\u{2474}', '\u{2024}', '\u{226f}', '\u{2ff0}', '\u{212a}', '\u{5b0}', '+',
];
fn flags(k: u64) -> F {
    F { std3: k & 1 != 0, trans: k & 2 != 0, len: k & 4 != 0 }
}
fn real(f: F) -> Flags {
    Flags { use_std3_ascii_rules: f.std3, transitional_processing: f.trans, verify_dns_length: f.len }
}
fn show(f: F) -> String {
    format!("{}{}{}", if f.std3 { " std3" } else { "" }, if f.trans { " transitional" } else { "" }, if f.len { " lengths" } else { "" })
}
/// Against the model.
fn conv(t: &Uts46, d: &str, few: bool, w: &mut W) {
    for k in 0..if few { 4 } else { 8 } {
        let f = flags(k);
        w.state();
        let key = || format!("{}{}", esc(d), show(f));
        let want = t.to_ascii(d, f);
        w.steps(d.len());
        w.outcome(want.as_ref().map_or(0, |x| hash_bytes(x.as_bytes())));
        w.eq(&guard(|| to_ascii(d, real(f)).ok()), &Ok(want), key, "to_ascii");
        if k & 2 == 0 && k & 4 == 0 {
            w.eq(&guard(|| { let (s, r) = to_unicode(d, real(f)); (s, r.is_ok()) }), &Ok(t.to_unicode(d, f)), key, "to_unicode");
        }
        w.trace();
    }
    // The other flags do not matter to to_unicode.
    for k in [0, 1] {
        let want = guard(|| to_unicode(d, real(flags(k))));
        for j in [2, 4, 6] {
            let f = flags(k | j);
            w.eq(&guard(|| to_unicode(d, real(f))), &want, || format!("{}{}", esc(d), show(f)), "to_unicode with other flags");
        }
    }
}
/// What must hold whatever the tables say.
fn stable(d: &str, few: bool, w: &mut W) {
    for k in 0..if few { 4 } else { 8 } {
        let f = flags(k);
        w.state();
        w.steps(d.len());
        let key = || format!("{}{}", esc(d), show(f));
        let r = guard(|| {
            let a = to_ascii(d, real(f)).ok()?;
            let again = to_ascii(&a, real(f)).ok();
            let (u, ok) = to_unicode(d, real(f));
            let back = to_ascii(&u, real(f)).ok();
            let (v, vok) = to_unicode(&a, real(f));
            Some((a, again, (u, ok.is_ok()), back, (v, vok.is_ok())))
        });
        w.trace();
        let r = match r {
            Err(e) => {
                w.fail(key(), format!("panic: {e}"));
                continue;
            }
            Ok(None) => {
                w.outcome(0);
                continue;
            }
            Ok(Some(r)) => r,
        };
        let (a, again, u, back, v) = r;
        w.outcome(hash_bytes(a.as_bytes()));
        if !a.is_ascii() || a.bytes().any(|b| b.is_ascii_uppercase()) {
            w.fail(key(), format!("ASCII form {}", esc(&a)));
        }
        if again.as_ref() != Some(&a) {
            w.fail(key(), format!("{} converts again to {again:?}", esc(&a)));
        }
        if f.len {
            let n = a.strip_suffix('.').unwrap_or(&a);
            if n.is_empty() || n.len() > 253 || n.split('.').any(|l| l.is_empty() || l.len() > 63) {
                w.fail(key(), format!("lengths {:?}", a.split('.').map(|l| l.len()).collect::<Vec<_>>()));
            }
        }
        // The ASCII name is shown as what the domain is shown as, unless transitional processing changed it.
        if !f.trans {
            if !u.1 {
                w.fail(key(), "to_ascii succeeds, and to_unicode does not");
            }
            if back.as_ref() != Some(&a) {
                w.fail(key(), format!("{} by way of {} is {back:?}", esc(&a), esc(&u.0)));
            }
            if v != u {
                w.fail(key(), format!("ASCII {} is shown as {:?}, not {:?}", esc(&a), v, u));
            }
        }
    }
}
fn spellings(d: &[char], w: &mut W) {
    // Equal domains in any spelling get one name: case, full width letters, ideographic dots.
    let x = text(d);
    let f = |c: &char| match c {
        'a'..='z' | '0'..='9' | '-' => char::from_u32(*c as u32 + 0xfee0).unwrap(),
        '.' => '\u{ff0e}',
        c => *c,
    };
    let mut other = vec![
        text(&d.iter().map(f).collect::<Vec<_>>()),
        x.replace('.', "\u{3002}"),
        d.iter().map(|c| c.to_ascii_uppercase()).collect(),
    ];
    let mut soft = String::new();
    for c in d {
        soft.push('\u{ad}');
        soft.push(*c);
    }
    other.push(soft);
    for k in [0, 1] {
        let want = guard(|| to_ascii(&x, real(flags(k))).ok());
        for o in &other {
            w.eq(&guard(|| to_ascii(o, real(flags(k))).ok()), &want, || format!("{} spelled {}{}", esc(&x), esc(o), show(flags(k))), "to_ascii");
        }
    }
}

fn families(c: &mut Check, f: impl Fn(&str, &[char], bool, &mut W) + Sync + Send + Copy + 'static) {
    let n = U.len() as u64;
    let len = by(4, 5);
    c.family("domain words", "every word over 25 characters with a role, to length 4 (thorough 5), every combination of flags", words_upto(n, len), move |i, w| {
        let s = pick(U, n, i);
        f(&text(&s), &s, false, w)
    });
    const B: &[char] = &['a', '\u{5d0}', '\u{627}', '\u{660}', '1', '+', '\u{5b0}', '.', '-'];
    let len = by(5, 7);
    c.family("bidi words", "every word over 9 characters with the bidi rule's classes, to length 5 (thorough 7)", words_upto(9, len), move |i, w| {
        let s = pick(B, 9, i);
        f(&text(&s), &s, false, w)
    });
    // ACE labels of short texts, valid or not, in several spellings, beside other labels.
    const T: &[char] = &['a', 'B', '1', '-', '.', '\u{301}', '\u{e9}', '\u{df}', '\u{200d}', '\u{ad}', '\u{5d0}', '\u{660}', '\u{2135}', '\u{2ff0}', '\u{80}', 'x', '\u{5b0}'];
    let tn = T.len() as u64;
    let len = by(3, 4);
    c.family("ACE labels", "the ACE label of every word over 17 characters to length 3 (thorough 4), in 3 spellings, alone and beside 4 other labels", words_upto(tn, len), move |i, w| {
        let p = encode(&pick(T, tn, i)).unwrap();
        for pre in ["xn--", "Xn--", "x\u{ad}n-\u{ff0d}"] {
            for (a, b) in [("", ""), ("", ".b"), ("1.", ""), ("", ".\u{5d0}"), ("\u{627}.", "")] {
                let d = format!("{a}{pre}{p}{b}");
                f(&d, &d.chars().collect::<Vec<_>>(), false, w)
            }
        }
    });
    const R: &[char] = &['a', 'b', '9', '-', 'x', 'n', '\u{e9}', '.', '\''];
    let len = by(5, 6);
    c.family("raw ACE labels", "xn-- and every word over 9 characters to length 5 (thorough 6)", words_upto(9, len), move |i, w| {
        let mut s: Vec<char> = "xn--".chars().collect();
        s.extend(pick(R, 9, i));
        f(&text(&s), &s, false, w)
    });
    c.family("nested ACE labels", "an ACE label of an ACE label of every word over 4 characters to length 3", words_upto(4, 3), move |i, w| {
        let p = encode(&pick(&['a', '\u{e9}', '-', '\u{5d0}'], 4, i)).unwrap();
        for q in [format!("xn--{p}"), format!("XN--{p}"), format!("xn--{p}\u{e9}"), format!("a.xn--{p}"), format!("yn--{p}")] {
            let q: Vec<char> = q.chars().collect();
            let d = format!("xn--{}", encode(&q).unwrap());
            f(&d, &d.chars().collect::<Vec<_>>(), false, w);
            let e = format!("xn--{}", encode(&d.chars().collect::<Vec<_>>()).unwrap());
            f(&e, &e.chars().collect::<Vec<_>>(), false, w);
        }
    });
    c.family("every character", "every scalar value alone, beside letters, marks and right-to-left letters, and in an ACE label", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        let mut v = vec![vec![c], vec!['a', c], vec![c, 'a'], vec!['\u{5d0}', c], vec!['1', '.', c], vec!['e', c, '\u{301}'], vec!['\u{5d0}', '.', 'a', c, 'a']];
        for s in [&[c][..], &['a', c]] {
            let p = encode(s).unwrap();
            v.push("xn--".chars().chain(p.chars()).collect());
        }
        if mc_common::by(false, true) {
            v.extend([vec!['\u{627}', c, '1'], vec!['a', c, '\u{5d0}'], vec!['\u{2135}', c], vec![c, '.', '\u{660}']]);
        }
        for s in v {
            f(&text(&s), &s, !mc_common::by(false, true), w)
        }
    });
    // Which labels make the domain a bidi one, and what that means for the others.
    const L: &[&str] = &[
        "", "a", "1a", "A-", "\u{e9}", "\u{df}", "\u{5d0}", "\u{5d0}1", "\u{660}", "\u{301}", "\u{ad}", "\u{627}a", "xn--bcher-kva", "xn--4dbc", "xn--zca", "xn--ls8h\u{301}", "xn--a", "xn--9", "XN--4DBC",
        "xn--1-zhca", "xn--a-0hc",
    ];
    let n = L.len() as u64;
    let len = by(4, 5);
    c.family("label lists", &format!("every list of up to {len} of {} labels: plain, right-to-left, ACE of either, malformed", L.len()), words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let v: Vec<&str> = v.iter().map(|k| L[*k as usize]).collect();
        let s = v.join(".");
        f(&s, &s.chars().collect::<Vec<_>>(), v.len() > 3, w)
    });
    const P: &[char] = &['a', 'B', '1', '-', '.', '\u{e9}', '\u{df}', '\u{301}', '\u{ad}', '\u{5d0}', '\u{660}', '\u{2ff0}', '\u{4e00}'];
    let n = P.len() as u64;
    let nv = n + n * n;
    let lens: &'static [usize] = by(&[31, 64, 129, 258], &[16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 258, 300, 1000]);
    c.family("pumped", &format!("u v^n w: u and w over 13 characters with a role, v every word of one or two, n of {lens:?}"), n * n * nv, move |i, w| {
        let (u, e, v) = (i % n, i / n % n, i / n / n);
        let v = if v < n { vec![P[v as usize]] } else { vec![P[((v - n) % n) as usize], P[((v - n) / n) as usize]] };
        for len in lens {
            let mut s = vec![P[u as usize]];
            for _ in 0..len / v.len() {
                s.extend(&v);
            }
            s.push(P[e as usize]);
            f(&text(&s), &s, true, w)
        }
    });
    let all = |v: Vec<u8>| v.iter().map(|k| P[*k as usize]).collect::<Vec<char>>();
    let lens: &'static [usize] = by(&[70], &[33, 62, 70, 130, 260]);
    c.family("stretched", &format!("every word of 4 over 13 characters with a role {STRETCHES}, n of {lens:?}"), stretched_size(n), move |i, w| {
        for m in lens {
            let s = all(stretched(n, i, *m));
            f(&text(&s), &s, true, w)
        }
    });
    c.family("spread", &format!("every word of 3 over 13 characters with n of one between each two, n of {lens:?}"), spread_size(n, 3, P.len()), move |i, w| {
        for m in lens {
            let s = all(spread(n, 3, i, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], *m));
            f(&text(&s), &s, true, w)
        }
    });
    const F: &[char] = &['a', '7', '\u{e9}', '\u{5d0}'];
    let m = U.len() as u64;
    c.family("aligned", &format!("every word of 1 or 2 over 25 characters {PADDED}: fillers {F:?}"), (m + m * m) * F.len() as u64, move |i, w| {
        padded(F[i as usize % F.len()], &pick(U, m, i / F.len() as u64 + 1), |s| f(&text(s), s, true, w))
    });
    const H: &[char] = &['a', 'B', '1', '-', '.', '\u{ad}', '\u{ff21}'];
    let long = by(65_600usize, 140_000);
    let n = H.len() as u64;
    c.family("huge", &format!("u v^n w of {long} characters that map to ASCII: w of 2, v every word of one or two over {} characters", H.len()), 2 * (n + n * n), move |i, w| {
        let v = i / 2;
        let v = if v < n { vec![H[v as usize]] } else { vec![H[((v - n) % n) as usize], H[((v - n) / n) as usize]] };
        let mut s = vec!['a'];
        for _ in 0..long / v.len() {
            s.extend(&v);
        }
        s.push(['b', '\u{e9}'][(i % 2) as usize]);
        f(&text(&s), &s, true, w)
    });
    c.family("lengths", "labels of 0..=3 and 60..=65 characters, ASCII or not, 1 to 5 of them, with and without a root dot; names of 250..=256", 1, move |_, w| {
        let sizes = [0usize, 1, 2, 60, 61, 62, 63, 64, 65];
        for a in sizes {
            for b in sizes {
                for tail in ["", "."] {
                    for ext in ["", "\u{e9}", "\u{ad}\u{ad}", "\u{3b1}\u{3b2}"] {
                        let x = "q".repeat(a);
                        let y = "r".repeat(b);
                        for d in [format!("{x}{ext}{tail}"), format!("{x}{ext}.{y}{tail}"), format!("{y}.{ext}{x}{tail}")] {
                            f(&d, &d.chars().collect::<Vec<_>>(), false, w)
                        }
                    }
                }
            }
        }
        for l in 53..=65 {
            for m in 50..=63 {
                for tail in ["", ".", ".."] {
                    let d = format!("{}.{}.{}.{}{tail}", "a".repeat(63), "b".repeat(63), "c".repeat(m), "d".repeat(l));
                    f(&d, &d.chars().collect::<Vec<_>>(), false, w);
                    let d = format!("{}\u{e9}.{}.{}.{}{tail}", "a".repeat(55), "b".repeat(63), "c".repeat(m), "d".repeat(l));
                    f(&d, &d.chars().collect::<Vec<_>>(), false, w);
                }
            }
        }
    });
}

fn main() {
    let p = std::env::args().nth(1).expect("property");
    let mut c = Check::new(&p);
    match p.as_str() {
        "I01" => i01(&mut c),
        "I03" => {
            let t = Uts46::load();
            c.assume("reference data: refdata/{idna,bidi_class,gc,nfd,ccc,compose}.txt (10.0)");
            c.assume("as the library documents: hyphens in positions 3 and 4 and the joiner rules (V2, V7) are not checked, leading and trailing hyphens and the bidi rule are");
            families(&mut c, move |d, _, few, w| conv(t, d, few, w));
        }
        "I04" => families(&mut c, |d, s, few, w| {
            stable(d, few, w);
            spellings(s, w);
        }),
        _ => panic!("{p}"),
    }
    c.finish()
}
