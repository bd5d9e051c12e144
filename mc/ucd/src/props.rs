use crate::*;
use std::cmp::Ordering;
use unic_char_property::*;

macro_rules! enumerated {
    ($v:ident, $table:expr, $default:expr, $t:ty) => {
        enumerated!($v, $table, $default, $t, |s: &str| s.to_string())
    };
    ($v:ident, $table:expr, $default:expr, $t:ty, $map:expr) => {
        $v.push(acc_map(stringify!($t), $table, $default, |c, s| s.push_str(<$t>::of(c).abbr_name()), move |_, r| $map(r)));
        $v.push(acc_map(
            concat!(stringify!($t), " (total trait)"),
            $table,
            $default,
            |c, s| s.push_str(EnumeratedCharProperty::abbr_name(&<$t as TotalCharProperty>::of(c))),
            move |_, r| $map(r),
        ));
        $v.push(acc_map(
            concat!(stringify!($t), " (partial trait)"),
            $table,
            $default,
            |c, s| s.push_str(<$t as PartialCharProperty>::of(c).map_or("", |v| EnumeratedCharProperty::abbr_name(&v))),
            move |_, r| $map(r),
        ));
    };
}

/// Every way to ask a binary property: one letter per access path, all must say the same.
macro_rules! binary {
    ($v:ident, $table:expr, $t:ty, $f:path) => {
        $v.push(acc_map(
            stringify!($t),
            $table,
            "",
            |c, s| {
                let p = <$t>::of(c);
                let yn = |b: bool| if b { 'Y' } else { 'N' };
                s.push(yn($f(c)));
                s.push(yn(p.as_bool()));
                s.push(yn(p.into()));
                s.push(yn(BinaryCharProperty::as_bool(&<$t as TotalCharProperty>::of(c))));
                s.push(yn(<$t as PartialCharProperty>::of(c).map_or(!p.as_bool(), |p| p.as_bool())));
                s.push_str(BinaryCharProperty::abbr_name(&p));
                s.push_str(BinaryCharProperty::long_name(&p));
                s.push_str(BinaryCharProperty::human_name(&p));
                let _ = write!(s, "{p}");
            },
            |_, r| if r == "Y" { "YYYYYYYesYesYes".into() } else { "NNNNNNNoNoNo".into() },
        ));
    };
}

fn opt<T: std::fmt::Display>(s: &mut String, v: Option<T>) {
    if let Some(v) = v {
        let _ = write!(s, "{v}");
    }
}

pub fn accessors(p: &str) -> Vec<Acc> {
    let mut v: Vec<Acc> = vec![];
    match p {
        "U01" => {
            use unic_ucd_category::GeneralCategory;
            enumerated!(v, "gc", "Cn", GeneralCategory);
            // The groupings, as one letter each.
            v.push(acc_map(
                "GeneralCategory groups",
                "gc",
                "Cn",
                |c, s| {
                    let g = GeneralCategory::of(c);
                    for (b, l) in [
                        (g.is_cased_letter(), 'K'),
                        (g.is_letter(), 'L'),
                        (g.is_mark(), 'M'),
                        (g.is_number(), 'N'),
                        (g.is_punctuation(), 'P'),
                        (g.is_symbol(), 'S'),
                        (g.is_separator(), 'Z'),
                        (g.is_other(), 'C'),
                    ] {
                        if b {
                            s.push(l)
                        }
                    }
                },
                |_, r| match r {
                    "Lu" | "Ll" | "Lt" => "KL".into(),
                    _ => r[..1].to_string(),
                },
            ));
        }
        "U02" => {
            use unic_ucd_age::{Age, CharAge};
            let want = |_: char, r: &str| if r.is_empty() { String::new() } else { format!("{r}.0") };
            v.push(acc_map("Age::of", "age", "", |c, s| opt(s, Age::of(c).map(|a| a.actual())), want));
            v.push(acc_map("char.age()", "age", "", |c, s| opt(s, c.age().map(|a| a.actual())), want));
            v.push(acc_map(
                "Age (partial trait)",
                "age",
                "",
                |c, s| opt(s, <Age as PartialCharProperty>::of(c).map(|a| CustomCharProperty::actual(&a))),
                want,
            ));
        }
        "U03" => {
            use unic_ucd_block::Block;
            v.push(acc("Block::of", "block", "", |c, s| opt(s, Block::of(c).map(|b| b.name))));
            v.push(acc("Block (partial trait)", "block", "", |c, s| {
                opt(s, <Block as PartialCharProperty>::of(c).map(|b| b.name))
            }));
            v.push(acc_map(
                "Block range holds the character",
                "block",
                "",
                |c, s| s.push(if Block::of(c).map_or(false, |b| b.range.contains(c)) { 'Y' } else { 'N' }),
                |_, r| if r.is_empty() { "N".into() } else { "Y".into() },
            ));
        }
        "U06" => {
            use unic_ucd_bidi::*;
            enumerated!(v, "bidi_class", "L", BidiClass);
            binary!(v, "bidi_control", BidiControl, is_bidi_control);
            binary!(v, "bidi_mirrored", BidiMirrored, is_bidi_mirrored);
            v.push(acc_map(
                "BidiClass predicates",
                "bidi_class",
                "L",
                |c, s| {
                    let b = c.bidi_class();
                    let _ = write!(s, "{} {:?} {} {} {} {}", b.abbr_name(), b.category(), b.is_ltr(), b.is_rtl(), CharBidiClass::is_ltr(c), CharBidiClass::is_rtl(c));
                },
                |_, r| {
                    let cat = match r {
                        "L" | "R" | "AL" => "Strong",
                        "EN" | "ES" | "ET" | "AN" | "CS" | "NSM" | "BN" => "Weak",
                        "B" | "S" | "WS" | "ON" => "Neutral",
                        _ => "ExplicitFormatting",
                    };
                    let l = matches!(r, "L" | "LRE" | "LRO" | "LRI");
                    let rt = matches!(r, "R" | "AL" | "RLE" | "RLO" | "RLI");
                    format!("{r} {cat} {l} {rt} {l} {rt}")
                },
            ));
        }
        "U07" => {
            use unic_ucd_normal::*;
            v.push(acc("CanonicalCombiningClass", "ccc", "0", |c, s| {
                let _ = write!(s, "{}", CanonicalCombiningClass::of(c).number());
            }));
            v.push(acc_map(
                "CanonicalCombiningClass views",
                "ccc",
                "0",
                |c, s| {
                    let p = CanonicalCombiningClass::of(c);
                    let t = <CanonicalCombiningClass as TotalCharProperty>::of(c);
                    let q = <CanonicalCombiningClass as PartialCharProperty>::of(c);
                    let _ = write!(s, "{} {} {} {} {}", p, NumericCharProperty::number(&t), q == Some(p), p.is_reordered(), p.is_not_reordered());
                },
                |_, r| format!("{r} {r} true {} {}", r != "0", r == "0"),
            ));
            v.push(acc("DecompositionType", "decomposition_type", "", |c, s| {
                opt(s, DecompositionType::of(c).map(|d| d.abbr_name()))
            }));
            v.push(acc("DecompositionType (partial trait)", "decomposition_type", "", |c, s| {
                opt(s, <DecompositionType as PartialCharProperty>::of(c).map(|d| d.abbr_name()))
            }));
            v.push(acc_map(
                "is_combining_mark",
                "gc",
                "Cn",
                |c, s| s.push(if is_combining_mark(c) { 'Y' } else { 'N' }),
                |_, r| if matches!(r, "Mn" | "Mc" | "Me") { "Y".into() } else { "N".into() },
            ));
        }
        "U08" => {
            use unic_ucd_segment::*;
            // The reference files use the long names.
            macro_rules! long {
                ($table:expr, $t:ty) => {
                    v.push(acc(stringify!($t), $table, "Other", |c, s| s.push_str(<$t>::of(c).long_name())));
                    v.push(acc(concat!(stringify!($t), " (total trait)"), $table, "Other", |c, s| {
                        s.push_str(EnumeratedCharProperty::long_name(&<$t as TotalCharProperty>::of(c)))
                    }));
                    v.push(acc(concat!(stringify!($t), " (partial trait)"), $table, "Other", |c, s| {
                        s.push_str(<$t as PartialCharProperty>::of(c).map_or("", |p| EnumeratedCharProperty::long_name(&p)))
                    }));
                };
            }
            long!("gcb", GraphemeClusterBreak);
            long!("wb", WordBreak);
            long!("sb", SentenceBreak);
        }
        "U09" => {
            use unic_ucd_case::*;
            use unic_ucd_common::*;
            binary!(v, "alphabetic", Alphabetic, is_alphabetic);
            binary!(v, "alphanumeric", alphanumeric::Alphanumeric, is_alphanumeric);
            binary!(v, "control", control::Control, is_control);
            binary!(v, "numeric", numeric::Numeric, is_numeric);
            binary!(v, "white_space", WhiteSpace, is_white_space);
            binary!(v, "lowercase", Lowercase, is_lowercase);
            binary!(v, "uppercase", Uppercase, is_uppercase);
            binary!(v, "cased", Cased, is_cased);
            binary!(v, "case_ignorable", CaseIgnorable, is_case_ignorable);
            binary!(v, "cwl", ChangesWhenLowercased, changes_when_lowercased);
            binary!(v, "cwu", ChangesWhenUppercased, changes_when_uppercased);
            binary!(v, "cwt", ChangesWhenTitlecased, changes_when_titlecased);
            binary!(v, "cwcf", ChangesWhenCasefolded, changes_when_casefolded);
            binary!(v, "cwcm", ChangesWhenCasemapped, changes_when_casemapped);
        }
        "U10" => {
            use unic_ucd_ident::*;
            binary!(v, "id_start", IdStart, is_id_start);
            binary!(v, "id_continue", IdContinue, is_id_continue);
            binary!(v, "xid_start", XidStart, is_xid_start);
            binary!(v, "xid_continue", XidContinue, is_xid_continue);
            binary!(v, "pattern_syntax", PatternSyntax, is_pattern_syntax);
            binary!(v, "pattern_white_space", PatternWhitespace, is_pattern_whitespace);
        }
        "U11" => {
            use unic_emoji_char::*;
            binary!(v, "emoji", Emoji, is_emoji);
            binary!(v, "emoji_presentation", EmojiPresentation, is_emoji_presentation);
            binary!(v, "emoji_modifier", EmojiModifier, is_emoji_modifier);
            binary!(v, "emoji_modifier_base", EmojiModifierBase, is_emoji_modifier_base);
            binary!(v, "emoji_component", EmojiComponent, is_emoji_component);
        }
        "U04" => {
            use unic_ucd_name::Name;
            v.push(acc_map("Name", "name", "", |c, s| opt(s, Name::of(c)), crate::names::want));
            v.push(acc_map(
                "Name::len",
                "name",
                "",
                |c, s| opt(s, Name::of(c).map(|n| n.len())),
                |c, r| {
                    let n = crate::names::want(c, r);
                    if n.is_empty() { n } else { n.len().to_string() }
                },
            ));
        }
        "U05" => {
            v.push(acc("name aliases", "name_alias", "", crate::names::alias_string));
        }
        "I02" => {
            use unic_idna_mapping::Mapping::{self, *};
            v.push(acc("Mapping", "idna", "disallowed;", |c, s| {
                let mut hex = |name: &str, m: &str| {
                    s.push_str(name);
                    s.push(';');
                    for (i, c) in m.chars().enumerate() {
                        if i > 0 {
                            s.push(' ');
                        }
                        let _ = write!(s, "{:04X}", c as u32);
                    }
                };
                match Mapping::of(c) {
                    Valid => hex("valid", ""),
                    Ignored => hex("ignored", ""),
                    Mapped(m) => hex("mapped", m),
                    Deviation(m) => hex("deviation", m),
                    Disallowed => hex("disallowed", ""),
                    DisallowedStd3Valid => hex("disallowed_STD3_valid", ""),
                    DisallowedStd3Mapped(m) => hex("disallowed_STD3_mapped", m),
                }
            }));
        }
        _ => (),
    }
    v
}

pub fn ages(c: &mut Check) {
    use unic_ucd_age::Age;
    // One character of each version in refdata/age.txt, oldest first.
    let t = data::table("age.txt", "");
    let mut reps: Vec<(Vec<u32>, char)> = vec![];
    for i in 0..N_SCALARS {
        let ch = scalar_at(i);
        let v = t.get(ch);
        if v.is_empty() {
            continue;
        }
        let v: Vec<u32> = v.split('.').map(|x| x.parse().unwrap()).collect();
        if !reps.iter().any(|r| r.0 == v) {
            reps.push((v, ch));
        }
    }
    let reps: &'static [(Vec<u32>, char)] = Box::leak(reps.into_boxed_slice());
    let n = reps.len() as u64;
    c.family("age order", "every pair of ages, every comparison operator; every triple through sorting", n * n * n, move |i, w| {
        let idx = [(i / n / n) as usize, (i / n % n) as usize, (i % n) as usize];
        let a: Vec<Age> = idx.iter().map(|k| Age::of(reps[*k].1).expect("age")).collect();
        let k = || format!("ages {:?}", idx.iter().map(|k| &reps[*k].0).collect::<Vec<_>>());
        w.state();
        // The older, the greater.
        let want = |x: usize, y: usize| reps[idx[y]].0.cmp(&reps[idx[x]].0);
        for (x, y) in [(0, 1), (1, 2), (0, 2)] {
            let o = want(x, y);
            w.steps(1);
            w.eq(&a[x].partial_cmp(&a[y]), &Some(o), k, "partial_cmp");
            w.eq(&a[x].cmp(&a[y]), &o, k, "cmp");
            w.eq(&(a[x] < a[y]), &(o == Ordering::Less), k, "<");
            w.eq(&(a[x] <= a[y]), &(o != Ordering::Greater), k, "<=");
            w.eq(&(a[x] > a[y]), &(o == Ordering::Greater), k, ">");
            w.eq(&(a[x] >= a[y]), &(o != Ordering::Less), k, ">=");
            w.eq(&(a[x] == a[y]), &(o == Ordering::Equal), k, "==");
            w.eq(&a[x].max(a[y]), &(if o == Ordering::Greater { a[x] } else { a[y] }), k, "max");
            w.eq(&a[x].min(a[y]), &(if o == Ordering::Less { a[x] } else { a[y] }), k, "min");
        }
        let mut s = idx.to_vec();
        s.sort_by(|p, q| reps[*q].0.cmp(&reps[*p].0));
        let mut g = a.clone();
        g.sort();
        w.eq(&g, &s.iter().map(|k| Age::of(reps[*k].1).unwrap()).collect::<Vec<_>>(), k, "sort");
    });
}

pub fn blocks(c: &mut Check) {
    use unic_ucd_block::BlockIter;
    c.family("block list", "the block iterator against refdata/block.txt", 1, |_, w| {
        // Reference lines are cut at the surrogates only, which no block crosses.
        let want: Vec<(u32, u32, String)> = data::lines("block.txt");
        let got: Vec<(u32, u32, String)> =
            BlockIter::new().map(|b| (b.range.low as u32, b.range.high as u32, b.name.to_string())).collect();
        for k in 0..want.len().max(got.len()) {
            w.state();
            w.steps(1);
            w.eq(&got.get(k), &want.get(k), || format!("block #{k}"), "block");
        }
        let d: Vec<_> = BlockIter::default().map(|b| b.name.to_string()).collect();
        w.eq(&d, &want.iter().map(|x| x.2.clone()).collect(), || "default()".into(), "names");
        let names = |x: Option<unic_ucd_block::Block>| x.map(|b| b.name.to_string());
        for at in 0..=want.len() {
            let mk = || {
                let mut it = BlockIter::new();
                for _ in 0..at {
                    it.next();
                }
                it
            };
            let rest = &want[at.min(want.len())..];
            let k = || format!("after {at} blocks");
            let (lo, hi) = mk().size_hint();
            w.state();
            w.steps(rest.len());
            w.check(lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()), k, "size_hint does not bound what remains");
            w.eq(&mk().count(), &rest.len(), k, "count");
            w.eq(&names(mk().last()), &rest.last().map(|x| x.2.clone()), k, "last");
            for j in 0..=rest.len() {
                let mut it = mk();
                w.eq(&names(it.nth(j)), &rest.get(j).map(|x| x.2.clone()), k, "nth");
                w.eq(&names(it.next()), &rest.get(j + 1).map(|x| x.2.clone()), k, "next after nth");
            }
        }
        let mut it = BlockIter::new();
        while it.next().is_some() {}
        w.check(it.next().is_none(), || "after the end".into(), "iterator goes on");
    });
}

pub fn ccc(c: &mut Check) {
    use unic_ucd_normal::CanonicalCombiningClass as C;
    c.family("named classes", "the named values and their order, every pair of classes of characters", 1, |_, w| {
        let named = [
            (C::NotReordered, 0), (C::Overlay, 1), (C::Nukta, 7), (C::KanaVoicing, 8), (C::Virama, 9),
            (C::AttatchedBelowLeft, 200), (C::AttachedBelow, 202), (C::AttachedBelowRight, 204), (C::AttachedLeft, 208),
            (C::AttachedRight, 210), (C::AttachedAboveLeft, 212), (C::AttatchedAbove, 214), (C::AttatchedAboveRight, 216),
            (C::BelowLeft, 218), (C::Below, 220), (C::BelowRight, 222), (C::Left, 224), (C::Right, 226), (C::AboveLeft, 228),
            (C::Above, 230), (C::AboveRight, 232), (C::DoubleBelow, 233), (C::DoubleAbove, 234), (C::IotaSubscript, 240),
        ];
        for (c, n) in named {
            w.state();
            w.eq(&c.number(), &n, || format!("named class {n}"), "number");
        }
        let mut seen: Vec<(C, u8)> = named.to_vec();
        for i in 0..N_SCALARS {
            let c = C::of(scalar_at(i));
            if !seen.iter().any(|s| s.1 == c.number()) {
                seen.push((c, c.number()));
            }
        }
        for a in &seen {
            for b in &seen {
                w.state();
                w.steps(1);
                let k = || format!("classes {} {}", a.1, b.1);
                w.eq(&a.0.cmp(&b.0), &a.1.cmp(&b.1), k, "cmp");
                w.eq(&a.0.partial_cmp(&b.0), &Some(a.1.cmp(&b.1)), k, "partial_cmp");
                w.eq(&(a.0 == b.0), &(a.1 == b.1), k, "==");
            }
        }
    });
    // The predicate as it is built without the category tables: from the mc-normal binary.
    let exe = std::env::current_exe().unwrap().with_file_name("mc-normal");
    let out = std::process::Command::new(&exe).arg("--marks").output().unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
    assert!(out.status.success());
    let bits: &'static [u8] = Box::leak(out.stdout.into_boxed_slice());
    let t = data::table("gc.txt", "Cn");
    c.family("is_combining_mark without the category tables", "every scalar value", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        w.state();
        w.eq(&(bits.get(i as usize) == Some(&b'1')), &t.get(c).starts_with('M'), || format!("U+{:04X} without the category tables", c as u32), "is_combining_mark");
    });
}

pub fn ident(c: &mut Check) {
    use unic_ucd_ident::*;
    c.family("closures", "the promises between the identifier properties, for every scalar value", N_SCALARS, |i, w| {
        let c = scalar_at(i);
        let k = || format!("U+{:04X}", c as u32);
        let (is, ic, xs, xc) = (is_id_start(c), is_id_continue(c), is_xid_start(c), is_xid_continue(c));
        let (ps, pw) = (is_pattern_syntax(c), is_pattern_whitespace(c));
        w.state();
        w.check(!is || ic, k, "ID_Start but not ID_Continue");
        w.check(!xs || xc, k, "XID_Start but not XID_Continue");
        w.check(!xs || is, k, "XID_Start but not ID_Start");
        w.check(!xc || ic, k, "XID_Continue but not ID_Continue");
        w.check(!(ps && pw), k, "both pattern syntax and white space");
        w.check(!(ic && (ps || pw)), k, "identifier character is a pattern character");
    });
}

pub fn basics(c: &mut Check) {
    use unic_char_basics::*;
    use unic_ucd_hangul::*;
    c.family("basics", "noncharacter, private use, U+ notation and Hangul syllable of every scalar value", N_SCALARS, |i, w| {
        let c = scalar_at(i);
        let u = c as u32;
        let k = || format!("U+{u:04X}");
        w.state();
        let non = (0xFDD0..=0xFDEF).contains(&u) || u & 0xFFFE == 0xFFFE;
        w.eq(&is_noncharacter(c), &non, k, "is_noncharacter");
        let pua = (0xE000..=0xF8FF).contains(&u) || (u >= 0xF0000 && !non);
        w.eq(&is_private_use(c), &pua, k, "is_private_use");
        // At least four upper-case hex digits, no leading zeros beyond that.
        let mut want = String::from("U+");
        let mut digits = vec![];
        let mut x = u;
        while x > 0 || digits.len() < 4 {
            digits.push(b"0123456789ABCDEF"[(x % 16) as usize]);
            x /= 16;
        }
        for d in digits.iter().rev() {
            want.push(*d as char);
        }
        w.eq(&unicode_notation(c).to_string(), &want, k, "unicode_notation");
        let syl = (0xAC00..0xAC00 + 11172).contains(&u);
        w.eq(&is_syllable(c), &syl, k, "is_syllable");
        if syl {
            let s = u - 0xAC00;
            let mut j = vec![0x1100 + s / 588, 0x1161 + s % 588 / 28];
            if s % 28 > 0 {
                j.push(0x11A7 + s % 28);
            }
            let mut got = vec![];
            decompose_syllable(c, &mut |c| got.push(c as u32));
            w.eq(&got, &j, k, "decompose_syllable");
            // Composing the jamo again, in steps, gives the syllable.
            let f = |n: u32| char::from_u32(n).unwrap();
            let lv = compose_syllable(f(j[0]), f(j[1]));
            let all = if j.len() == 3 { lv.and_then(|lv| compose_syllable(lv, f(j[2]))) } else { lv };
            w.eq(&all, &Some(c), k, "composing the decomposition");
        }
        w.outcome((non as u64) | (pua as u64) << 1 | (syl as u64) << 2);
    });
    // All pairs: first from everything Hangul and its surroundings, second from the jamo and around.
    let firsts: Vec<u32> = (0x10F8..0x1210).chain(0xABF8..0xD7B0).chain([0, 0x41, 0xFFFF, 0x10FFFF]).collect();
    let seconds: Vec<u32> = (0x10F8..0x1210).chain([0, 0x41, 0xABFF, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4, 0xFFFF, 0x10FFFF]).collect();
    let (firsts, seconds): (&'static [u32], &'static [u32]) = (Box::leak(firsts.into()), Box::leak(seconds.into()));
    let wide = c.thorough();
    c.family(
        "hangul pairs",
        "compose_syllable for every first character that is Hangul or next to it, with every second likewise (thorough: with every scalar as second for the jamo and boundary firsts)",
        firsts.len() as u64,
        move |i, w| {
            let a = char::from_u32(firsts[i as usize]).unwrap();
            let one = |b: char, w: &mut W| {
                let (x, y) = (a as u32, b as u32);
                let want = if (0x1100..=0x1112).contains(&x) && (0x1161..=0x1175).contains(&y) {
                    char::from_u32(0xAC00 + ((x - 0x1100) * 21 + (y - 0x1161)) * 28)
                } else if (0xAC00..=0xD7A3).contains(&x) && (x - 0xAC00) % 28 == 0 && (0x11A8..=0x11C2).contains(&y) {
                    char::from_u32(x + (y - 0x11A7))
                } else {
                    None
                };
                w.state();
                w.steps(2);
                w.eq(&compose_syllable(a, b), &want, || format!("U+{x:04X} U+{y:04X}"), "compose_syllable");
            };
            for s in seconds {
                one(char::from_u32(*s).unwrap(), w);
            }
            let x = a as u32;
            if wide && (x < 0x1210 || (x >= 0xABF8 && x <= 0xAC40) || x >= 0xD780) {
                for s in 0..N_SCALARS {
                    one(scalar_at(s), w);
                }
            }
        },
    );
}
