use crate::*;
use unic_ucd_bidi::StrBidiClass;

/// One or two characters of every bidi class.
const REPS: &[(&str, char)] = &[
    ("L", 'a'), ("L", '\u{200e}'), ("R", '\u{5d0}'), ("R", '\u{200f}'), ("AL", '\u{627}'), ("EN", '1'), ("ES", '+'), ("ET", '$'),
    ("AN", '\u{660}'), ("CS", ','), ("NSM", '\u{300}'), ("BN", '\u{1}'), ("B", '\u{2029}'), ("S", '\t'), ("WS", ' '), ("ON", '!'),
    ("LRE", '\u{202a}'), ("LRO", '\u{202d}'), ("RLE", '\u{202b}'), ("RLO", '\u{202e}'), ("PDF", '\u{202c}'), ("LRI", '\u{2066}'),
    ("RLI", '\u{2067}'), ("FSI", '\u{2068}'), ("PDI", '\u{2069}'), ("R", '\u{10800}'),
];
fn ltr(c: &str) -> bool {
    matches!(c, "L" | "LRE" | "LRO" | "LRI")
}
fn rtl(c: &str) -> bool {
    matches!(c, "R" | "AL" | "RLE" | "RLO" | "RLI")
}
fn explicit(c: &str) -> bool {
    matches!(c, "LRE" | "LRO" | "RLE" | "RLO" | "PDF" | "LRI" | "RLI" | "FSI" | "PDI")
}

pub fn bidi(c: &mut Check) {
    let n = REPS.len() as u64;
    let len = by(4, 5);
    c.family("strings", "every word over a character of each class to length 4 (thorough 5)", words_upto(n, len), move |i, w| {
        let mut word = vec![];
        word_at(n, i, &mut word);
        let s: String = word.iter().map(|k| REPS[*k as usize].1).collect();
        let any = |f: fn(&str) -> bool| word.iter().any(|k| f(REPS[*k as usize].0));
        let k = || esc(&s);
        w.state();
        w.steps(word.len());
        let (l, r, e) = (any(ltr), any(rtl), any(explicit));
        w.outcome(l as u64 | (r as u64) << 1 | (e as u64) << 2);
        w.eq(&s.has_ltr(), &l, k, "has_ltr");
        w.eq(&s.has_rtl(), &r, k, "has_rtl");
        w.eq(&s.has_bidi_explicit(), &e, k, "has_bidi_explicit");
    });
    c.family("format-characters", "the named format characters", 1, |_, w| {
        use unic::bidi::format_chars::*;
        let all = [("ALM", ALM, 0x61C), ("LRM", LRM, 0x200E), ("RLM", RLM, 0x200F), ("LRE", LRE, 0x202A), ("RLE", RLE, 0x202B), ("PDF", PDF, 0x202C),
            ("LRO", LRO, 0x202D), ("RLO", RLO, 0x202E), ("LRI", LRI, 0x2066), ("RLI", RLI, 0x2067), ("FSI", FSI, 0x2068), ("PDI", PDI, 0x2069)];
        for (n, c, v) in all {
            w.state();
            w.eq(&(c as u32), &v, || n.into(), "code point");
        }
    });
    let t = data::table("bidi_class.txt", "L");
    c.family("one-character strings", "every scalar value alone and after a digit", N_SCALARS, move |i, w| {
        let ch = scalar_at(i);
        let b = t.get(ch);
        for s in [format!("{ch}"), format!("1{ch}")] {
            w.state();
            let k = || esc(&s);
            if nonchar(ch) && s.has_ltr() {
                w.fail(known_nonchar(ch), "has_ltr is true");
            } else {
                w.eq(&s.has_ltr(), &ltr(b), k, "has_ltr");
            }
            w.eq(&s.has_rtl(), &rtl(b), k, "has_rtl");
            w.eq(&s.has_bidi_explicit(), &explicit(b), k, "has_bidi_explicit");
        }
    });
}
