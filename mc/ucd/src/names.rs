use crate::*;
use std::cmp::Ordering;
use unic_char_property::*;
use unic_ucd_name::Name;
use unic_ucd_name_aliases::{name_aliases_of, NameAliasType};

const JL: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const JV: [&str; 21] = [
    "A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I",
];
const JT: [&str; 28] = [
    "", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG",
    "J", "C", "K", "T", "P", "H",
];

/// The name that the reference entry stands for (rules NR1-NR4 of the Unicode Standard, section 4.8).
pub fn want(c: char, r: &str) -> String {
    let u = c as u32;
    if !r.starts_with('<') {
        r.to_string()
    } else if r.starts_with("<CJK") {
        format!("CJK UNIFIED IDEOGRAPH-{u:X}")
    } else if r == "<Tangut Ideograph>" {
        format!("TANGUT IDEOGRAPH-{u:X}")
    } else if r == "<Hangul Syllable>" {
        let s = u - 0xAC00;
        format!(
            "HANGUL SYLLABLE {}{}{}",
            JL[(s / 588) as usize],
            JV[(s % 588 / 28) as usize],
            JT[(s % 28) as usize]
        )
    } else {
        String::new()
    }
}

pub fn order(c: &mut Check) {
    let t = data::table("name.txt", "");
    let mut all: Vec<(String, char)> = (0..N_SCALARS)
        .map(scalar_at)
        .map(|c| (want(c, t.get(c)), c))
        .filter(|x| !x.0.is_empty())
        .collect();
    all.sort();
    let all: &'static [(String, char)] = Box::leak(all.into_boxed_slice());
    let cmp = |a: &(String, char), b: &(String, char), w: &mut W| {
        let k = || format!("{} / {}", a.0, b.0);
        let (x, y) = (Name::of(a.1), Name::of(b.1));
        let o = a.0.cmp(&b.0);
        w.state();
        w.steps(2);
        if let (Some(x), Some(y)) = (x, y) {
            w.eq(&x.cmp(&y), &o, k, "cmp");
            w.eq(&y.cmp(&x), &o.reverse(), k, "cmp, swapped");
            w.eq(&x.partial_cmp(&y), &Some(o), k, "partial_cmp");
            w.eq(&(x == y), &(o == Ordering::Equal), k, "==");
        }
    };
    let span = by(12u64, 64);
    c.family(
        "name order, neighbours",
        "each name with the 12 (thorough 64) that follow it in text order, and itself",
        all.len() as u64,
        move |i, w| {
            for d in 0..=span {
                if let Some(b) = all.get((i + d) as usize) {
                    cmp(&all[i as usize], b, w);
                }
            }
        },
    );
    // All pairs among: every jamo combination class of syllables, ideographs at every digit boundary,
    // and listed names at a stride and around the computed ones.
    let mut some: Vec<usize> = vec![];
    let stride = by(61, 17);
    for (i, x) in all.iter().enumerate() {
        let u = x.1 as u32;
        let edge = i == 0
            || i + 1 == all.len()
            || x.0.starts_with("HANGUL ") != all[i - 1].0.starts_with("HANGUL ")
            || x.0.len() != all[i - 1].0.len() && (x.0.contains("IDEOGRAPH-") || x.0.contains("CHARACTER-"))
            || x.0.split('-').next() != all[i - 1].0.split('-').next() && x.0.contains('-') && x.0.contains("CJK");
        let syl = (0xAC00..=0xD7A3).contains(&u) && (u - 0xAC00) % 28 < 2;
        if edge || i % stride == 0 || syl && i % 3 == 0 {
            some.push(i);
        }
    }
    let some: &'static [usize] = Box::leak(some.into_boxed_slice());
    c.family(
        "name order, all kinds",
        "every pair among a fixed list that holds each kind of name, every kind boundary and every length change",
        some.len() as u64,
        move |i, w| {
            for j in 0..some.len() {
                cmp(&all[some[i as usize]], &all[some[j]], w);
            }
        },
    );
}

fn kind(t: NameAliasType) -> &'static str {
    match t {
        NameAliasType::NameCorrections => "correction",
        NameAliasType::ControlCodeNames => "control",
        NameAliasType::AlternateNames => "alternate",
        NameAliasType::Figments => "figment",
        NameAliasType::NameAbbreviations => "abbreviation",
    }
}
const TYPES: [NameAliasType; 5] = [
    NameAliasType::NameCorrections,
    NameAliasType::ControlCodeNames,
    NameAliasType::AlternateNames,
    NameAliasType::Figments,
    NameAliasType::NameAbbreviations,
];

/// "NAME: type|NAME: type", grouped by type in the order above.
pub fn alias_string(c: char, s: &mut String) {
    for t in TYPES {
        for n in name_aliases_of(c, t).unwrap_or(&[]) {
            if !s.is_empty() {
                s.push('|');
            }
            let _ = write!(s, "{n}: {}", kind(t));
        }
    }
}

pub fn aliases(c: &mut Check) {
    let t = data::table("name_alias.txt", "");
    c.family("alias types", "the list of types of every scalar value is the set of types it has aliases of", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        let k = || format!("U+{:04X}", c as u32);
        w.state();
        let want: Vec<&str> = TYPES
            .iter()
            .map(|t| kind(*t))
            .filter(|n| t.get(c).split('|').any(|a| a.rsplit(": ").next() == Some(*n)))
            .collect();
        let got = NameAliasType::of(c);
        w.check(got.map_or(true, |g| !g.is_empty()), k, "an empty list of types");
        let mut g: Vec<&str> = got.unwrap_or(&[]).iter().map(|t| kind(*t)).collect();
        let n = g.len();
        g.sort_by_key(|k| TYPES.iter().position(|t| kind(*t) == *k));
        g.dedup();
        w.check(g.len() == n, k, "a type listed twice");
        w.eq(&g, &want, k, "types");
        for t in TYPES {
            let a = name_aliases_of(c, t);
            w.check(a.map_or(true, |a| !a.is_empty()), k, "an empty list of aliases");
            w.eq(&a.is_some(), &want.contains(&kind(t)), k, "aliases exist");
        }
    });
}

/// Every spelling of a name in which each of the first `n` letters is in either case.
pub fn case_variants(s: &str, max: usize) -> Vec<String> {
    let letters: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|x| x.0).collect();
    let n = letters.len().min(max);
    let mut out = vec![s.to_string(), s.to_uppercase(), s.to_lowercase()];
    for m in 0..1u32 << n {
        let mut b = s.to_lowercase().into_bytes();
        for (k, p) in letters.iter().rev().take(n).enumerate() {
            if m >> k & 1 == 1 {
                b[*p] = b[*p].to_ascii_uppercase();
            }
        }
        out.push(String::from_utf8(b).unwrap());
    }
    out
}

/// Words that are close to a name but are not one.
pub fn near(s: &str) -> Vec<String> {
    let mut v = vec![format!("{s} "), format!(" {s}"), format!("{s}s"), format!("{s}_"), s.replace('_', " "), s.replace('_', "-"), s.replace('_', "")];
    for (i, c) in s.char_indices() {
        let end = i + c.len_utf8();
        let mut t = s.to_string();
        t.remove(i);
        v.push(t);
        let mut t = s.to_string();
        t.replace_range(i..end, "x");
        v.push(t);
        let mut t = s.to_string();
        t.insert(i, 'q');
        v.push(t);
        // U+017F and U+212A fold to ASCII letters in Unicode, but not in ASCII.
        let mut t = s.to_string();
        t.replace_range(i..end, "\u{17f}");
        v.push(t);
        let mut t = s.to_string();
        t.replace_range(i..end, "\u{212a}");
        v.push(t);
    }
    v
}

struct Prop {
    ty: &'static str,
    names: [&'static str; 3],
    /// abbr, long, human, display of each value in declared order
    values: Vec<[String; 4]>,
    /// index in `values` of the parsed value
    parse: Box<dyn Fn(&str) -> Option<usize> + Sync + Send>,
}

/// How `stringify!` spaces a path depends on the macros its tokens went through.
fn spaceless(s: &str) -> &'static str {
    Box::leak(s.replace(' ', "").into_boxed_str())
}

macro_rules! en {
    ($v:ident, $t:ty) => {
        $v.push(Prop {
            ty: spaceless(stringify!($t)),
            names: [<$t>::prop_abbr_name(), <$t>::prop_long_name(), <$t>::prop_human_name()],
            values: <$t>::all_values()
                .iter()
                .map(|x| [x.abbr_name().into(), x.long_name().into(), x.human_name().into(), x.to_string()])
                .collect(),
            parse: Box::new(|s| s.parse::<$t>().ok().map(|x| <$t>::all_values().iter().position(|y| *y == x).unwrap_or(usize::MAX))),
        });
    };
}
macro_rules! bi {
    ($v:ident, $t:ty) => {{
        let yes: Vec<$t> = [true, false]
            .iter()
            .map(|b| <$t>::of((0..N_SCALARS).map(scalar_at).find(|c| <$t>::of(*c).as_bool() == *b).unwrap()))
            .collect();
        $v.push(Prop {
            ty: spaceless(stringify!($t)),
            names: [<$t>::prop_abbr_name(), <$t>::prop_long_name(), <$t>::prop_human_name()],
            values: yes
                .iter()
                .map(|x| {
                    [
                        BinaryCharProperty::abbr_name(x).into(),
                        BinaryCharProperty::long_name(x).into(),
                        BinaryCharProperty::human_name(x).into(),
                        x.to_string(),
                    ]
                })
                .collect(),
            parse: Box::new(|s| s.parse::<$t>().ok().map(|x| if x.as_bool() { 0 } else { 1 })),
        });
    }};
}

macro_rules! every {
    ($v:ident, $en:ident, $bi:ident) => {
        $en!($v, unic_ucd_bidi::BidiClass);
        $en!($v, unic_ucd_category::GeneralCategory);
        $en!($v, unic_ucd_normal::DecompositionType);
        $en!($v, unic_ucd_segment::GraphemeClusterBreak);
        $en!($v, unic_ucd_segment::WordBreak);
        $en!($v, unic_ucd_segment::SentenceBreak);
        $bi!($v, unic_ucd_bidi::BidiControl);
        $bi!($v, unic_ucd_bidi::BidiMirrored);
        $bi!($v, unic_ucd_common::Alphabetic);
        $bi!($v, unic_ucd_common::alphanumeric::Alphanumeric);
        $bi!($v, unic_ucd_common::control::Control);
        $bi!($v, unic_ucd_common::numeric::Numeric);
        $bi!($v, unic_ucd_common::WhiteSpace);
        $bi!($v, unic_ucd_case::Lowercase);
        $bi!($v, unic_ucd_case::Uppercase);
        $bi!($v, unic_ucd_case::Cased);
        $bi!($v, unic_ucd_case::CaseIgnorable);
        $bi!($v, unic_ucd_case::ChangesWhenLowercased);
        $bi!($v, unic_ucd_case::ChangesWhenUppercased);
        $bi!($v, unic_ucd_case::ChangesWhenTitlecased);
        $bi!($v, unic_ucd_case::ChangesWhenCasefolded);
        $bi!($v, unic_ucd_case::ChangesWhenCasemapped);
        $bi!($v, unic_ucd_ident::IdStart);
        $bi!($v, unic_ucd_ident::IdContinue);
        $bi!($v, unic_ucd_ident::XidStart);
        $bi!($v, unic_ucd_ident::XidContinue);
        $bi!($v, unic_ucd_ident::PatternSyntax);
        $bi!($v, unic_ucd_ident::PatternWhitespace);
        $bi!($v, unic_emoji_char::Emoji);
        $bi!($v, unic_emoji_char::EmojiPresentation);
        $bi!($v, unic_emoji_char::EmojiModifier);
        $bi!($v, unic_emoji_char::EmojiModifierBase);
        $bi!($v, unic_emoji_char::EmojiComponent);
    };
}

pub(crate) use every;

fn all_props() -> Vec<Prop> {
    let mut v = vec![];
    every!(v, en, bi);
    v
}

pub type Shown = (&'static str, Vec<(Box<dyn std::fmt::Display + Sync + Send>, String)>);
/// Every value of every property type, and the name it displays.
pub fn shown() -> Vec<Shown> {
    let mut v: Vec<Shown> = vec![];
    macro_rules! en {
        ($v:ident, $t:ty) => {
            $v.push((stringify!($t), <$t>::all_values().iter().map(|x| (Box::new(*x) as Box<_>, x.human_name().to_string())).collect()));
        };
    }
    macro_rules! bi {
        ($v:ident, $t:ty) => {
            $v.push((
                stringify!($t),
                [true, false]
                    .iter()
                    .filter_map(|b| (0..N_SCALARS).map(scalar_at).map(|c| <$t>::of(c)).find(|x| x.as_bool() == *b))
                    .map(|x| (Box::new(x) as Box<_>, BinaryCharProperty::human_name(&x).to_string()))
                    .collect(),
            ));
        };
    }
    every!(v, en, bi);
    v
}

/// `TYPE;abbr;long;human` then one line per value `  abbr;long;human`.
fn reference() -> Vec<(String, [String; 3], Vec<[String; 3]>)> {
    let mut out: Vec<(String, [String; 3], Vec<[String; 3]>)> = vec![];
    for l in data::read("value_names.txt").lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
        let f: Vec<String> = l.trim_start().split(';').map(|x| x.to_string()).collect();
        if l.starts_with("  ") {
            out.last_mut().unwrap().2.push([f[0].clone(), f[1].clone(), f[2].clone()]);
        } else {
            out.push((f[0].clone(), [f[1].clone(), f[2].clone(), f[3].clone()], vec![]));
        }
    }
    out
}

pub fn value_names(c: &mut Check) {
    let props: &'static [Prop] = Box::leak(all_props().into_boxed_slice());
    if std::env::var("MC_DUMP").is_ok() {
        for p in props {
            println!("{};{}", p.ty, p.names.join(";"));
            for v in &p.values {
                println!("  {};{};{}", v[0], v[1], v[2]);
            }
        }
        std::process::exit(0);
    }
    let reference = reference();
    c.family("names", "every property type's names, values and value names against refdata/value_names.txt, and every spelling of them", props.len() as u64, move |i, w| {
        let p = &props[i as usize];
        let k = || p.ty.to_string();
        let Some(r) = reference.iter().find(|r| r.0 == p.ty) else {
            return w.fail(p.ty, "no reference");
        };
        w.eq(&p.names.map(String::from), &r.1, k, "property names");
        w.eq(&p.values.len(), &r.2.len(), k, "number of values");
        let binary = p.values.len() == 2 && p.values[0][1] == "Yes";
        // Accepted words: the abbreviated and long names (and T/True/F/False for binary ones).
        let mut words: Vec<(String, usize)> = vec![];
        for (j, v) in r.2.iter().enumerate() {
            w.state();
            let kv = || format!("{} {}", p.ty, v[1]);
            let Some(g) = p.values.get(j) else { break };
            w.eq(&g[..3].to_vec(), &v.to_vec(), kv, "value names");
            w.eq(&g[3], &v[2], kv, "displayed name");
            words.push((v[0].clone(), j));
            words.push((v[1].clone(), j));
        }
        if binary {
            for (s, j) in [("T", 0), ("True", 0), ("F", 1), ("False", 1)] {
                words.push((s.into(), j));
            }
        }
        for (s, j) in &words {
            for x in case_variants(s, by(10, 14)) {
                w.state();
                w.steps(x.len());
                // An exact spelling may be another value's name only if it is that very name.
                let want = words.iter().find(|y| y.0 == x).or_else(|| words.iter().find(|y| y.0.eq_ignore_ascii_case(&x))).map(|y| y.1);
                w.check(want == Some(*j), || format!("{} {x}", p.ty), "two values share a name");
                w.eq(&(p.parse)(&x), &Some(*j), || format!("{} parse {:?}", p.ty, x), "value");
            }
            for x in near(s) {
                w.state();
                w.steps(x.len());
                let want = words.iter().find(|y| y.0.eq_ignore_ascii_case(&x)).map(|y| y.1);
                w.eq(&(p.parse)(&x), &want, || format!("{} parse {}", p.ty, esc(&x)), "value");
            }
        }
        for v in &r.2 {
            // Human names are not accepted unless they are also an abbreviated or long name.
            let want = words.iter().find(|y| y.0.eq_ignore_ascii_case(&v[2])).map(|y| y.1);
            w.eq(&(p.parse)(&v[2]), &want, || format!("{} parse {:?}", p.ty, v[2]), "value");
        }
    });
    // Each type's name and the value of what is not listed.
    let mut v: Vec<(String, String, &'static str)> = vec![];
    macro_rules! skip {
        ($v:ident, $t:ty) => {};
    }
    macro_rules! no {
        ($v:ident, $t:ty) => {
            $v.push((spaceless(stringify!($t)).into(), BinaryCharProperty::long_name(&<$t>::default()).into(), "No"));
            $v.push((spaceless(stringify!($t)).into(), bool::from(<$t>::default()).to_string(), "false"));
        };
    }
    every!(v, skip, no);
    macro_rules! is {
        ($t:ty, $want:expr) => {
            v.push((stringify!($t).into(), <$t>::default().long_name().into(), $want));
        };
    }
    is!(unic_ucd_bidi::BidiClass, "Left_To_Right");
    is!(unic_ucd_category::GeneralCategory, "Unassigned");
    is!(unic_ucd_segment::GraphemeClusterBreak, "Other");
    is!(unic_ucd_segment::WordBreak, "Other");
    is!(unic_ucd_segment::SentenceBreak, "Other");
    use unic_ucd_age::Age;
    use unic_ucd_normal::CanonicalCombiningClass as Ccc;
    v.push(("CanonicalCombiningClass".into(), Ccc::default().number().to_string(), "0"));
    for (t, names, want) in [
        ("Age", [Age::prop_abbr_name(), Age::prop_long_name(), Age::prop_human_name()], ["age", "Age", "Age"]),
        (
            "CanonicalCombiningClass",
            [Ccc::prop_abbr_name(), Ccc::prop_long_name(), Ccc::prop_human_name()],
            ["ccc", "Canonical_Combining_Class", "Canonical Combining Class"],
        ),
    ] {
        for (n, want) in names.into_iter().zip(want) {
            v.push((t.into(), n.into(), want));
        }
    }
    c.family("defaults", "the default value of every type with one, and the names of the types without named values", v.len() as u64, move |i, w| {
        let (t, got, want) = &v[i as usize];
        w.state();
        w.eq(&got.as_str(), want, || t.clone(), "default or name");
    });
    crate::declared::families(c);
    // Every short word.
    let alpha: &'static [u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0129 ";
    let len = by(3, 4);
    c.family("short-words", "every word of up to 3 (thorough 4) letters parsed as every property type", words_upto(alpha.len() as u64, len), move |i, w| {
        let mut word = vec![];
        word_at(alpha.len() as u64, i, &mut word);
        let s: String = word.iter().map(|b| alpha[*b as usize] as char).collect();
        for p in props {
            w.state();
            w.steps(1);
            let binary = p.values.len() == 2 && p.values[0][1] == "Yes";
            let mut want = p
                .values
                .iter()
                .position(|v| v[0].eq_ignore_ascii_case(&s) || v[1].eq_ignore_ascii_case(&s));
            if binary && want.is_none() {
                want = match s.to_ascii_lowercase().as_str() {
                    "t" | "true" => Some(0),
                    "f" | "false" => Some(1),
                    _ => None,
                };
            }
            let got = (p.parse)(&s);
            if got != want {
                w.fail(format!("{} parse {:?}", p.ty, s), format!("implementation {got:?}, model {want:?}"));
            }
            w.trace();
        }
    });
}
