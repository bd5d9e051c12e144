//! C06: what values display, and what displaying does when the sink fails.
use crate::*;
use std::fmt::{self, Display, Write};
use unic::bidi::{BidiInfo, Level};
use unic::normal::StrNormalForm;
use unic_char_property::*;
use unic_common::version::UnicodeVersion;
use unic_ucd_name::Name;
use unic_ucd_normal::CanonicalCombiningClass as Ccc;

/// A sink that refuses some of what it is given.
struct Sink {
    text: String,
    writes: usize,
    /// Refuse the write of this index ...
    refuse: usize,
    /// ... and all that follow.
    sticky: bool,
    /// Room for this many bytes; the write that does not fit is cut at a character.
    room: usize,
    failed: bool,
}
impl Sink {
    fn new(refuse: usize, sticky: bool, room: usize) -> Sink {
        Sink { text: String::new(), writes: 0, refuse, sticky, room, failed: false }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.writes;
        self.writes += 1;
        if n == self.refuse || self.sticky && n > self.refuse || self.failed && self.room != usize::MAX {
            self.failed = true;
            return Err(fmt::Error);
        }
        let mut cut = (self.room - self.text.len()).min(s.len());
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        self.text.push_str(&s[..cut]);
        if cut < s.len() {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// `x` displays `want`; whatever write fails, or wherever the room ends, displaying fails and what got through is
/// the beginning of the text.
fn faults(x: &dyn Display, want: &str, all_bytes: bool, k: &dyn Fn() -> String, w: &mut W) {
    let mut s = Sink::new(usize::MAX, true, usize::MAX);
    w.state();
    w.check(write!(s, "{x}").is_ok(), k, "displaying fails, but the sink does not");
    w.eq(&s.text.as_str(), &want, k, "displayed text");
    w.eq(&x.to_string().as_str(), &want, k, "to_string");
    let writes = s.writes;
    // Flags may pad the text, and do nothing else to it.
    let long = want.chars().count() + 3;
    for s in [format!("{x:#}"), format!("{x:.long$}"), format!("{x:1}"), format!("{x:\u{1}<long$}"), format!("{x:\u{1}>long$.long$}"), format!("{x:\u{1}^#200}")] {
        w.steps(1);
        w.eq(&s.trim_matches('\u{1}'), &want, k, "text displayed with flags");
    }
    for n in 0..writes {
        for sticky in [true, false] {
            let mut s = Sink::new(n, sticky, usize::MAX);
            let r = write!(s, "{x}");
            w.steps(1);
            w.check(r.is_err(), k, "the sink refused a write, but displaying succeeds");
            if sticky {
                w.check(want.starts_with(&s.text), k, "what got through is not the beginning of the text");
            }
        }
    }
    if all_bytes {
        for room in 0..want.len() {
            let mut s = Sink::new(usize::MAX, true, room);
            let r = write!(s, "{x}");
            w.steps(1);
            w.check(r.is_err(), k, "the sink is full, but displaying succeeds");
            w.check(want.starts_with(&s.text), k, "what got through is not the beginning of the text");
        }
        let mut s = Sink::new(usize::MAX, true, want.len());
        w.check(write!(s, "{x}").is_ok() && s.text == want, k, "the text fits, but is not displayed");
    }
}

pub fn all(c: &mut Check) {
    let t = data::table("name.txt", "");
    c.family("names", "the name of every character, every write refused once or for good, every room", N_SCALARS, move |i, w| {
        let ch = scalar_at(i);
        if let Some(n) = Name::of(ch) {
            faults(&n, &names::want(ch, t.get(ch)), true, &|| format!("U+{:04X}", ch as u32), w);
        }
    });
    c.family("notation", "the notation of every scalar value, every write refused, every room", N_SCALARS, |i, w| {
        let ch = scalar_at(i);
        let want = format!("U+{}", { let h = format!("{:X}", ch as u32); "0".repeat(4usize.saturating_sub(h.len())) + &h });
        faults(&unic::char::basics::unicode_notation(ch), &want, true, &|| want.clone(), w);
    });
    c.family("combining classes", "the class of every scalar value", N_SCALARS, |i, w| {
        let k = Ccc::of(scalar_at(i));
        faults(&k, &k.number().to_string(), false, &|| format!("{:?}", scalar_at(i)), w);
    });
    c.family("levels", "every bidi level", 127, |i, w| {
        for l in [Level::new(i as u8), Level::new_explicit(i as u8)].into_iter().flatten() {
            faults(&l, &i.to_string(), true, &|| i.to_string(), w);
        }
    });
    c.family("versions", "every version: one number of every value, the others of 0, 9, 10, 99, 100 and 255", 256 * 36 * 3, |i, w| {
        let (v, a, b) = ((i / 108) as u8, [0u8, 9, 10, 99, 100, 255][(i / 18 % 6) as usize], [0u8, 9, 10, 99, 100, 255][(i / 3 % 6) as usize]);
        let (x, y, z) = [(v, a, b), (a, v, b), (a, b, v)][(i % 3) as usize];
        let want = [x.to_string(), y.to_string(), z.to_string()].join(".");
        for u in [UnicodeVersion { major: x, minor: y, micro: z }, UnicodeVersion::from((x, y, z))] {
            faults(&u, &want, true, &|| want.clone(), w);
        }
    });
    let props: &'static [names::Shown] = Box::leak(names::shown().into_boxed_slice());
    c.family("property values", "every value of every property type", props.len() as u64, move |i, w| {
        let (ty, values) = &props[i as usize];
        for (x, human) in values {
            faults(x.as_ref(), human, true, &|| format!("{ty} {human}"), w);
        }
    });
    // Text being normalized: as it stands at every step of the iteration.
    let sigma: Vec<char> = "a\u{e9}\u{301}\u{323}\u{1e69}\u{ac01}\u{1100}\u{1161}\u{fb01}\u{f4}\u{345}\u{1d15e}".chars().collect();
    let n = by(4, 5);
    c.family(
        "normalization",
        "every word to length 4 (thorough 5) over 12 characters, each form, every point of the iteration: the rest is displayed, every write refused, every room",
        words_upto(sigma.len() as u64, n),
        move |i, w| {
            let mut v = vec![];
            word_at(sigma.len() as u64, i, &mut v);
            let s: String = v.into_iter().map(|j: u8| sigma[j as usize]).collect();
            let k = || esc(&s);
            macro_rules! form {
                ($f:ident) => {{
                    let mut it = s.$f();
                    loop {
                        let rest: String = it.clone().collect();
                        faults(&it, &rest, true, &k, w);
                        if it.next().is_none() {
                            break;
                        }
                    }
                }};
            }
            form!(nfd);
            form!(nfkd);
            form!(nfc);
            form!(nfkc);
            w.sample(|| esc(&s));
        },
    );
    // The same of long texts, at the beginning, within the runs and at the end.
    let few: Vec<char> = "a\u{e9}\u{301}\u{323}\u{ac01}\u{1161}\u{fb01}".chars().collect();
    let lens: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    let about = format!("every word of 4 over 7 characters {STRETCHES}, n of {lens:?}, each form, at 6 points of the iteration: the rest is displayed, every write refused for good");
    c.family("long normalization", &about, stretched_size(7), move |i, w| {
        for m in lens {
            let s: String = stretched(7, i, *m).into_iter().map(|j| few[j as usize]).collect();
            let k = || esc(&s);
            macro_rules! form {
                ($f:ident) => {{
                    for skip in [0, 1, m / 2, *m, m + 2, 2 * m] {
                        let mut it = s.$f();
                        for _ in 0..skip {
                            it.next();
                        }
                        let rest: String = it.clone().collect();
                        w.state();
                        w.eq(&it.to_string(), &rest, k, "to_string");
                        for n in [0, 1, 31, 32, 33, rest.len() / 2, rest.len().saturating_sub(1)] {
                            if n >= rest.len() {
                                continue;
                            }
                            let mut s = Sink::new(usize::MAX, true, n);
                            w.steps(1);
                            w.check(write!(s, "{it}").is_err(), k, "the sink is full, but displaying succeeds");
                            w.check(rest.starts_with(&s.text), k, "what got through is not the beginning of the text");
                        }
                    }
                }};
            }
            form!(nfd);
            form!(nfkd);
            form!(nfc);
            form!(nfkc);
        }
    });
    let bidi: Vec<char> = "a1 \u{5d0}\n\u{202b}\u{2067}\u{2069}".chars().collect();
    c.family("bidi info", "every text to length 4 over 8 characters: the number of paragraphs and the highest level", words_upto(bidi.len() as u64, 4), move |i, w| {
        let mut v = vec![];
        word_at(bidi.len() as u64, i, &mut v);
        let s: String = v.into_iter().map(|j: u8| bidi[j as usize]).collect();
        let b = BidiInfo::new(&s, None);
        let max = b.levels.iter().map(|l| l.number()).max().unwrap_or(0);
        let want = format!("{} paragraphs with a maximum bidirectional level of {max}", b.paragraphs.len());
        faults(&b, &want, true, &|| esc(&s), w);
    });
    let bidi: Vec<char> = "a1 \u{5d0}\n\u{202b}".chars().collect();
    let lens: &'static [usize] = by(&[70, 300], &[33, 70, 130, 260, 300, 1000]);
    c.family("long bidi info", &format!("every text of 4 over 6 characters {STRETCHES}, n of {lens:?}: as above"), stretched_size(6), move |i, w| {
        for m in lens {
            let s: String = stretched(6, i, *m).into_iter().map(|j| bidi[j as usize]).collect();
            let b = BidiInfo::new(&s, None);
            let max = b.levels.iter().map(|l| l.number()).max().unwrap_or(0);
            let want = format!("{} paragraphs with a maximum bidirectional level of {max}", b.paragraphs.len());
            faults(&b, &want, false, &|| esc(&s), w);
        }
    });
}
