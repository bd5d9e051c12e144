//! What the input files of the table generator say, and what its tables must say then.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub type Set = BTreeSet<u32>;

#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
    /// Empty for a character without a name, listed as `<...>`.
    pub name: String,
    pub gc: String,
    pub ccc: u8,
    pub bidi: String,
    pub decomp: Option<(Option<String>, Vec<u32>)>,
    pub mirrored: bool,
}

#[derive(Clone, Default)]
pub struct BreakTest {
    /// Character and its category.
    pub chars: Vec<(u32, String)>,
    /// Between characters: break or not, and the rule.
    pub joins: Vec<(bool, String)>,
}

pub const ALIAS_TYPES: [(&str, &str, &str); 5] = [
    ("correction", "NameCorrections", "corrections"),
    ("control", "ControlCodeNames", "controls"),
    ("alternate", "AlternateNames", "alternates"),
    ("figment", "Figments", "figments"),
    ("abbreviation", "NameAbbreviations", "abbreviations"),
];
pub const IDNA: [(&str, &str, bool); 7] = [
    ("valid", "Valid", false),
    ("ignored", "Ignored", false),
    ("mapped", "Mapped", true),
    ("deviation", "Deviation", true),
    ("disallowed", "Disallowed", false),
    ("disallowed_STD3_valid", "DisallowedStd3Valid", false),
    ("disallowed_STD3_mapped", "DisallowedStd3Mapped", true),
];

/// Binary properties: file, name in the file, table.
pub const PROPS: &[(&str, &str, &str)] = &[
    ("PropList", "White_Space", "unic/ucd/common/tables/white_space.rsv"),
    ("PropList", "Bidi_Control", "unic/ucd/bidi/tables/bidi_control.rsv"),
    ("PropList", "Pattern_Syntax", "unic/ucd/ident/tables/pattern_syntax.rsv"),
    ("PropList", "Pattern_White_Space", "unic/ucd/ident/tables/pattern_white_space.rsv"),
    ("PropList", "Dash", ""),
    ("PropList", "Other_Alphabetic", ""),
    ("DerivedCoreProperties", "Lowercase", "unic/ucd/case/tables/lowercase.rsv"),
    ("DerivedCoreProperties", "Uppercase", "unic/ucd/case/tables/uppercase.rsv"),
    ("DerivedCoreProperties", "Cased", "unic/ucd/case/tables/cased.rsv"),
    ("DerivedCoreProperties", "Case_Ignorable", "unic/ucd/case/tables/case_ignorable.rsv"),
    ("DerivedCoreProperties", "Changes_When_Lowercased", "unic/ucd/case/tables/changes_when_lowercased.rsv"),
    ("DerivedCoreProperties", "Changes_When_Uppercased", "unic/ucd/case/tables/changes_when_uppercased.rsv"),
    ("DerivedCoreProperties", "Changes_When_Titlecased", "unic/ucd/case/tables/changes_when_titlecased.rsv"),
    ("DerivedCoreProperties", "Changes_When_Casefolded", "unic/ucd/case/tables/changes_when_casefolded.rsv"),
    ("DerivedCoreProperties", "Changes_When_Casemapped", "unic/ucd/case/tables/changes_when_casemapped.rsv"),
    ("DerivedCoreProperties", "Alphabetic", "unic/ucd/common/tables/alphabetic.rsv"),
    ("DerivedCoreProperties", "ID_Start", "unic/ucd/ident/tables/id_start.rsv"),
    ("DerivedCoreProperties", "ID_Continue", "unic/ucd/ident/tables/id_continue.rsv"),
    ("DerivedCoreProperties", "XID_Start", "unic/ucd/ident/tables/xid_start.rsv"),
    ("DerivedCoreProperties", "XID_Continue", "unic/ucd/ident/tables/xid_continue.rsv"),
    ("DerivedCoreProperties", "Default_Ignorable_Code_Point", ""),
    ("DerivedCoreProperties", "Grapheme_Extend", ""),
    ("DerivedCoreProperties", "Grapheme_Link", ""),
    ("emoji", "Emoji", "unic/emoji/char/tables/emoji.rsv"),
    ("emoji", "Emoji_Presentation", "unic/emoji/char/tables/emoji_presentation.rsv"),
    ("emoji", "Emoji_Modifier", "unic/emoji/char/tables/emoji_modifier.rsv"),
    ("emoji", "Emoji_Modifier_Base", "unic/emoji/char/tables/emoji_modifier_base.rsv"),
    ("emoji", "Emoji_Component", "unic/emoji/char/tables/emoji_component.rsv"),
];

/// `DerivedBidiClass.txt` of Unicode 10: classes of code points that are not listed. The
/// noncharacters, BN there too, are left to the tables' users.
pub const BIDI_DEFAULTS: &[(u32, u32, &str)] = &[
    (0x0590, 0x05FF, "R"),
    (0x0600, 0x07BF, "AL"),
    (0x07C0, 0x085F, "R"),
    (0x0860, 0x086F, "AL"),
    (0x0870, 0x089F, "R"),
    (0x08A0, 0x08FF, "AL"),
    (0x20A0, 0x20CF, "ET"),
    (0xFB1D, 0xFB4F, "R"),
    (0xFB50, 0xFDCF, "AL"),
    (0xFDF0, 0xFDFF, "AL"),
    (0xFE70, 0xFEFF, "AL"),
    (0x10800, 0x10FFF, "R"),
    (0x1E800, 0x1EDFF, "R"),
    (0x1EE00, 0x1EEFF, "AL"),
    (0x1EF00, 0x1EFFF, "R"),
];

#[derive(Clone, Default)]
pub struct World {
    pub ucd_version: (u16, u16, u16),
    pub idna_version: (u16, u16, u16),
    pub emoji_version: (u8, u8),
    pub age: BTreeMap<u32, (u16, u16, u16)>,
    pub blocks: BTreeMap<u32, String>,
    pub gcb: BTreeMap<u32, String>,
    pub wb: BTreeMap<u32, String>,
    pub sb: BTreeMap<u32, String>,
    pub props: BTreeMap<&'static str, Set>,
    pub excl: Set,
    pub data: BTreeMap<u32, Entry>,
    /// In the order of the file.
    pub aliases: Vec<(u32, usize, String)>,
    pub jamo: BTreeMap<u32, String>,
    pub idna: BTreeMap<u32, (usize, Vec<u32>)>,
    pub norm_tests: Vec<[Vec<u32>; 5]>,
    pub gcb_tests: Vec<BreakTest>,
    pub wb_tests: Vec<BreakTest>,
}

/// How the files are laid out; the same statements however they are written down.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    /// Longest run of code points on one line.
    pub run: u32,
    /// 0: ascending, 1: descending, 2: odd lines first.
    pub order: u8,
    /// Comments, blank lines and the column layout of the real files.
    pub decorated: bool,
}
pub const LAYOUTS: [Layout; 7] = [
    Layout { run: u32::MAX, order: 0, decorated: true },
    Layout { run: u32::MAX, order: 0, decorated: false },
    Layout { run: 1, order: 0, decorated: true },
    Layout { run: 1, order: 1, decorated: false },
    Layout { run: 2, order: 0, decorated: true },
    Layout { run: 3, order: 2, decorated: false },
    Layout { run: u32::MAX, order: 1, decorated: true },
];

fn surrogate(c: u32) -> bool {
    (0xD800..=0xDFFF).contains(&c)
}

/// Maximal runs of consecutive code points with one value, cut to `run`.
fn runs<V: PartialEq + Clone>(m: impl IntoIterator<Item = (u32, V)>, run: u32) -> Vec<(u32, u32, V)> {
    let mut out: Vec<(u32, u32, V)> = vec![];
    for (c, v) in m {
        match out.last_mut() {
            Some((a, b, w)) if *b + 1 == c && *w == v && c - *a < run => *b = c,
            _ => out.push((c, c, v)),
        }
    }
    out
}

fn ordered<T>(v: Vec<T>, order: u8) -> Vec<T> {
    match order {
        1 => v.into_iter().rev().collect(),
        2 => {
            let (mut odd, mut even) = (vec![], vec![]);
            for (i, x) in v.into_iter().enumerate() {
                if i % 2 == 1 { odd.push(x) } else { even.push(x) }
            }
            odd.append(&mut even);
            odd
        }
        _ => v,
    }
}

impl Layout {
    fn head(&self, o: &mut String, name: &str) {
        if self.decorated {
            let _ = write!(o, "# {name}.txt\n# Date: 2017-06-20\n#\n# @missing: 0000..10FFFF; None\n# 0041..005A    ; Not_Data # in a comment\n\n");
        }
    }
    fn range(&self, a: u32, b: u32) -> String {
        let s = if a == b { format!("{a:04X}") } else { format!("{a:04X}..{b:04X}") };
        if self.decorated { format!("{s:<14}") } else { s }
    }
    fn tail(&self, a: u32, b: u32) -> String {
        if self.decorated { format!(" # L&  [{}] 0041 ; A..Z; LETTER", b - a + 1) } else { String::new() }
    }
    fn between(&self, o: &mut String, i: usize) {
        if self.decorated && i % 5 == 2 {
            o.push_str(if i % 2 == 0 { "\n" } else { "# Total code points: 5\n\n" });
        }
    }
    fn map<V: PartialEq + Clone>(&self, name: &str, m: &BTreeMap<u32, V>, ranges_only: bool, f: impl Fn(&V) -> String) -> String {
        let mut o = String::new();
        self.head(&mut o, name);
        for (i, (a, b, v)) in ordered(runs(m.iter().map(|(c, v)| (*c, v.clone())), self.run), self.order).into_iter().enumerate() {
            if ranges_only {
                let _ = writeln!(o, "{a:04X}..{b:04X}; {}", f(&v));
            } else if self.decorated {
                let _ = writeln!(o, "{}; {}{}", self.range(a, b), f(&v), self.tail(a, b));
            } else {
                let _ = writeln!(o, "{} ; {}", self.range(a, b), f(&v));
            }
            self.between(&mut o, i);
        }
        o
    }
}

pub fn files(w: &World, l: &Layout) -> Vec<(String, String)> {
    let ucd = |n: &str| format!("external/unicode/ucd/data/{n}.txt");
    let mut out: Vec<(String, String)> = vec![];
    let v = w.ucd_version;
    out.push((ucd("ReadMe"), format!("# Date: 2017\n# Unicode Character Database\nThis directory contains the final data files\nfor Version {}.{}.{} of the Unicode Standard.\n", v.0, v.1, v.2)));
    let v = w.idna_version;
    out.push(("external/unicode/idna/data/ReadMe.txt".into(), format!("# IDNA\nfor Version {}.{}.{} of the Unicode Standard.\n", v.0, v.1, v.2)));
    let v = w.emoji_version;
    out.push(("external/unicode/emoji/data/ReadMe.txt".into(), format!("# Unicode Emoji, Version {}.{}\n", v.0, v.1)));
    out.push((ucd("DerivedAge"), l.map("DerivedAge", &w.age, false, |v| if v.2 == 0 { format!("{}.{}", v.0, v.1) } else { format!("{}.{}.{}", v.0, v.1, v.2) })));
    out.push((ucd("Blocks"), l.map("Blocks", &w.blocks, true, |v| v.clone())));
    out.push((ucd("auxiliary/GraphemeBreakProperty"), l.map("GraphemeBreakProperty", &w.gcb, false, |v| v.clone())));
    out.push((ucd("auxiliary/WordBreakProperty"), l.map("WordBreakProperty", &w.wb, false, |v| v.clone())));
    out.push((ucd("auxiliary/SentenceBreakProperty"), l.map("SentenceBreakProperty", &w.sb, false, |v| v.clone())));
    for (file, path) in [("PropList", ucd("PropList")), ("DerivedCoreProperties", ucd("DerivedCoreProperties")), ("emoji", "external/unicode/emoji/data/emoji-data.txt".to_string())] {
        let mut o = String::new();
        l.head(&mut o, file);
        let props: Vec<_> = PROPS.iter().filter(|p| p.0 == file).collect();
        for p in ordered(props, l.order) {
            let set = w.props.get(p.1).cloned().unwrap_or_default();
            for (i, (a, b, _)) in ordered(runs(set.iter().map(|c| (*c, ())), l.run), l.order).into_iter().enumerate() {
                let _ = writeln!(o, "{} ; {}{}", l.range(a, b), p.1, l.tail(a, b));
                l.between(&mut o, i);
            }
        }
        out.push((path, o));
    }
    let mut o = String::new();
    l.head(&mut o, "DerivedNormalizationProps");
    let _ = write!(o, "037A          ; FC_NFKC; 0020 03B9 # Lm       GREEK YPOGEGRAMMENI\n");
    for (i, (a, b, _)) in ordered(runs(w.excl.iter().map(|c| (*c, ())), l.run), l.order).into_iter().enumerate() {
        let _ = writeln!(o, "{} ; Full_Composition_Exclusion # Mn {}", l.range(a, b), l.tail(a, b));
        l.between(&mut o, i);
    }
    let _ = write!(o, "00C0..00C5    ; NFD_QC; N # L&   [6] LATIN\n0340          ; NFC_QC; N # Mn\n");
    out.push((ucd("DerivedNormalizationProps"), o));

    // UnicodeData.txt has one form only: ascending, a line per character, or First/Last.
    let mut o = String::new();
    let entry = |o: &mut String, c: u32, name: &str, e: &Entry| {
        let d = match &e.decomp {
            None => String::new(),
            Some((t, m)) => {
                let m: Vec<String> = m.iter().map(|c| format!("{c:04X}")).collect();
                match t {
                    None => m.join(" "),
                    Some(t) => format!("<{t}> {}", m.join(" ")),
                }
            }
        };
        let (num, up) = if l.decorated && e.gc == "Nd" { (";3;3;3;", "") } else if l.decorated { (";;;1/4;", "0041") } else { (";;;;", "") };
        let _ = writeln!(o, "{c:04X};{name};{};{};{};{d}{num}{};{};;{up};;", e.gc, e.ccc, e.bidi, if e.mirrored { "Y" } else { "N" }, if l.decorated { "OLD NAME" } else { "" });
    };
    for (a, b, e) in runs(w.data.iter().map(|(c, e)| (*c, e.clone())), if l.run == 1 { 1 } else { u32::MAX }) {
        if e.name.is_empty() && b > a {
            entry(&mut o, a, "<Some Range, First>", &e);
            entry(&mut o, b, "<Some Range, Last>", &e);
        } else {
            for c in a..=b {
                entry(&mut o, c, if e.name.is_empty() { "<control>" } else { &e.name }, &e);
            }
        }
    }
    out.push((ucd("UnicodeData"), o));

    let mut o = String::new();
    l.head(&mut o, "NameAliases");
    for (i, (c, t, a)) in w.aliases.iter().enumerate() {
        let _ = writeln!(o, "{c:04X};{a};{}", ALIAS_TYPES[*t].0);
        l.between(&mut o, i);
    }
    out.push((ucd("NameAliases"), o));
    let mut o = String::new();
    l.head(&mut o, "Jamo");
    for (i, (c, s)) in ordered(w.jamo.iter().collect(), l.order).into_iter().enumerate() {
        let _ = if l.decorated { writeln!(o, "{c:04X}; {s:<4}# HANGUL") } else { writeln!(o, "{c:04X};{s}") };
        l.between(&mut o, i);
    }
    out.push((ucd("Jamo"), o));

    let mut o = String::new();
    l.head(&mut o, "IdnaMappingTable");
    for (i, (a, b, (st, m))) in ordered(runs(w.idna.iter().map(|(c, v)| (*c, v.clone())), l.run), l.order).into_iter().enumerate() {
        let m: Vec<String> = m.iter().map(|c| format!("{c:04X}")).collect();
        let (name, _, mapped) = IDNA[st];
        let r = l.range(a, b);
        let _ = match (mapped, l.decorated) {
            (true, true) => writeln!(o, "{r}; {name:<23}; {:<22} # 1.1  A", m.join(" ")),
            (true, false) => writeln!(o, "{r};{name};{}#", m.join(" ")),
            (false, true) if i % 3 == 0 => writeln!(o, "{r}; {name:<23};      ; {}    # 1.1  A", if i % 2 == 0 { "NV8" } else { "XV8" }),
            (false, true) => writeln!(o, "{r}; {name:<23}                        # 1.1  A"),
            (false, false) => writeln!(o, "{r};{name}#"),
        };
        l.between(&mut o, i);
    }
    out.push(("external/unicode/idna/data/IdnaMappingTable.txt".into(), o));

    let hex = |v: &[u32]| v.iter().map(|c| format!("{c:04X}")).collect::<Vec<_>>().join(" ");
    let mut o = String::new();
    l.head(&mut o, "NormalizationTest");
    o.push_str("@Part0 # Specific cases\n#\n");
    for t in &w.norm_tests {
        let _ = writeln!(o, "{};{};{};{};{}; # (a; b; c; d; e; ) LATIN", hex(&t[0]), hex(&t[1]), hex(&t[2]), hex(&t[3]), hex(&t[4]));
    }
    out.push((ucd("NormalizationTest"), o));
    for (n, tests) in [("GraphemeBreakTest", &w.gcb_tests), ("WordBreakTest", &w.wb_tests)] {
        let mut o = String::new();
        l.head(&mut o, n);
        for t in tests {
            let (mut s, mut c) = (String::from("÷"), String::from("÷ [0.2]"));
            for (i, (ch, cat)) in t.chars.iter().enumerate() {
                if i > 0 {
                    let (b, rule) = &t.joins[i - 1];
                    let m = if *b { '÷' } else { '×' };
                    let _ = write!(s, " {m}");
                    let _ = write!(c, " {m} [{rule}]");
                }
                let _ = write!(s, " {ch:04X}");
                let _ = write!(c, " {} ({cat})", if *ch == 0xA { "<LINE FEED (LF)>" } else { "SOME-NAME OF IT" });
            }
            let _ = writeln!(o, "{s} ÷\t#  {c} ÷ [0.3]");
        }
        if l.decorated {
            let _ = writeln!(o, "#\n# Lines: {}\n#\n# EOF", tests.len());
        }
        out.push((ucd(&format!("auxiliary/{n}")), o));
    }
    out
}

/// A table, as written or as it must be.
#[derive(Clone, PartialEq, Debug)]
pub enum Table {
    Range(Vec<(u32, u32, String)>),
    Direct(Vec<(u32, String)>),
    Text(String),
}

fn esc(c: u32) -> String {
    format!("\\u{{{c:x}}}")
}
fn range_table<V: PartialEq + Clone>(m: impl IntoIterator<Item = (u32, V)>, f: impl Fn(&V) -> String) -> Table {
    Table::Range(runs(m.into_iter().filter(|x| !surrogate(x.0)), u32::MAX).into_iter().map(|(a, b, v)| (a, b, f(&v))).collect())
}
fn set_table(s: impl IntoIterator<Item = u32>) -> Table {
    range_table(s.into_iter().map(|c| (c, ())), |_| "()".into())
}
fn text(v: &[u32]) -> String {
    v.iter().map(|c| esc(*c)).collect()
}

/// The tables each component consists of.
pub fn expected(w: &World) -> BTreeMap<String, Table> {
    let mut t = BTreeMap::new();
    let version = |v: (u16, u16, u16)| Table::Text(format!("UnicodeVersion {{ major: {}, minor: {}, micro: {} }}", v.0, v.1, v.2));
    for c in ["age", "bidi", "block", "case", "category", "common", "version", "hangul", "ident", "name", "name_aliases", "normal", "segment"] {
        t.insert(format!("unic/ucd/{c}/tables/unicode_version.rsv"), version(w.ucd_version));
    }
    t.insert("unic/idna/mapping/tables/unicode_version.rsv".into(), version(w.idna_version));
    t.insert("unic/emoji/char/tables/emoji_version.rsv".into(), version((w.emoji_version.0.into(), w.emoji_version.1.into(), 0)));
    t.insert("unic/ucd/age/tables/age_values.rsv".into(), range_table(w.age.clone(), |v| format!("UnicodeVersion {{ major: {}, minor: {}, micro: {} }}", v.0, v.1, v.2)));
    t.insert("unic/ucd/block/tables/blocks.rsv".into(), range_table(w.blocks.clone(), |v| format!("{v:?}")));
    for (n, p, m) in [("grapheme_cluster_break", "GCB", &w.gcb), ("word_break", "WB", &w.wb), ("sentence_break", "SB", &w.sb)] {
        t.insert(format!("unic/ucd/segment/tables/{n}.rsv"), range_table(m.clone(), |v| format!("{p}::{v}")));
    }
    let none = Set::new();
    let prop = |n: &str| w.props.get(n).unwrap_or(&none);
    for (_, n, path) in PROPS {
        if !path.is_empty() {
            t.insert(path.to_string(), set_table(prop(n).iter().cloned()));
        }
    }
    let data = || w.data.iter().filter(|x| !surrogate(*x.0));
    t.insert("unic/ucd/category/tables/general_category.rsv".into(), range_table(data().map(|(c, e)| (*c, e.gc.clone())), |v| v.clone()));
    t.insert("unic/ucd/common/tables/control.rsv".into(), set_table(data().filter(|x| x.1.gc == "Cc").map(|x| *x.0)));
    let numeric: Set = data().filter(|x| matches!(&x.1.gc[..], "Nd" | "Nl" | "No")).map(|x| *x.0).collect();
    t.insert("unic/ucd/common/tables/numeric.rsv".into(), set_table(numeric.iter().cloned()));
    t.insert("unic/ucd/common/tables/alphanumeric.rsv".into(), set_table(numeric.union(prop("Alphabetic")).cloned()));
    t.insert("unic/ucd/bidi/tables/bidi_mirrored.rsv".into(), set_table(data().filter(|x| x.1.mirrored).map(|x| *x.0)));
    let mut bidi: BTreeMap<u32, String> = BTreeMap::new();
    for (a, b, v) in BIDI_DEFAULTS {
        bidi.extend((*a..=*b).map(|c| (c, v.to_string())));
    }
    bidi.extend(prop("Default_Ignorable_Code_Point").iter().map(|c| (*c, "BN".to_string())));
    bidi.extend(data().map(|(c, e)| (*c, e.bidi.clone())));
    t.insert("unic/ucd/bidi/tables/bidi_class.rsv".into(), range_table(bidi, |v| v.clone()));
    t.insert("unic/ucd/normal/tables/general_category_mark.rsv".into(), set_table(data().filter(|x| x.1.gc.starts_with('M')).map(|x| *x.0)));
    t.insert("unic/ucd/normal/tables/canonical_combining_class_values.rsv".into(), range_table(data().filter(|x| x.1.ccc != 0).map(|x| (*x.0, x.1.ccc)), |v| format!("CanonicalCombiningClass({v})")));
    let list = |m: &[u32]| m.iter().map(|c| format!("'{}',", esc(*c))).collect::<String>();
    let mut canon = vec![];
    let mut compat = vec![];
    let mut comp: BTreeMap<u32, BTreeMap<u32, u32>> = BTreeMap::new();
    for (c, e) in data() {
        match &e.decomp {
            None => (),
            Some((None, m)) => {
                canon.push((*c, format!("&[{}]", list(m))));
                if m.len() == 2 && !w.excl.contains(c) {
                    comp.entry(m[0]).or_default().insert(m[1], *c);
                }
            }
            Some((Some(t), m)) => {
                let mut t = t.to_ascii_lowercase();
                t[..1].make_ascii_uppercase();
                compat.push((*c, format!("({t}, &[{}])", list(m))));
            }
        }
    }
    t.insert("unic/ucd/normal/tables/canonical_decomposition_mapping.rsv".into(), Table::Direct(canon));
    t.insert("unic/ucd/normal/tables/compatibility_decomposition_mapping.rsv".into(), Table::Direct(compat));
    let comp = comp
        .into_iter()
        .map(|(c, m)| (c, format!("CharDataTable::Direct(&[{}])", m.iter().map(|(f, r)| format!("('{}','{}'),", esc(*f), esc(*r))).collect::<String>())))
        .collect();
    t.insert("unic/ucd/normal/tables/canonical_composition_mapping.rsv".into(), Table::Direct(comp));
    let mut pieces: BTreeSet<&str> = BTreeSet::new();
    let mut names = vec![];
    for (c, e) in data().filter(|x| !x.1.name.is_empty()) {
        pieces.extend(e.name.split(' '));
        names.push((*c, format!("&[{}]", e.name.replace('-', "_").replace(' ', ", "))));
    }
    t.insert("unic/ucd/name/tables/name_map.rsv".into(), Table::Direct(names));
    t.insert("unic/ucd/name/tables/name_values.rsd".into(), Table::Text(pieces.iter().map(|p| format!("const {}: &str = {p:?};\n", p.replace('-', "_"))).collect()));
    t.insert("unic/ucd/name/tables/jamo.rsv".into(), Table::Direct(w.jamo.iter().map(|(c, s)| (*c, format!("{s:?}"))).collect()));
    let mut types: BTreeMap<u32, Vec<String>> = BTreeMap::new();
    let mut by_type: Vec<BTreeMap<u32, Vec<String>>> = vec![BTreeMap::new(); 5];
    for (c, ty, a) in &w.aliases {
        let mut add = |m: &mut BTreeMap<u32, Vec<String>>, s: String| {
            let v = m.entry(*c).or_default();
            if !v.contains(&s) {
                v.push(s)
            }
        };
        add(&mut types, ALIAS_TYPES[*ty].1.to_string());
        add(&mut by_type[*ty], format!("{a:?}"));
    }
    let lists = |m: BTreeMap<u32, Vec<String>>| Table::Direct(m.into_iter().map(|(c, v)| (c, format!("&[{}]", v.join(", ")))).collect());
    t.insert("unic/ucd/name_aliases/tables/name_alias_types.rsv".into(), lists(types));
    for (ty, m) in by_type.into_iter().enumerate() {
        t.insert(format!("unic/ucd/name_aliases/tables/{}.rsv", ALIAS_TYPES[ty].2), lists(m));
    }
    t.insert(
        "unic/idna/mapping/tables/idna_mapping.rsv".into(),
        range_table(w.idna.clone(), |(s, m)| if IDNA[*s].2 { format!("{}(\"{}\")", IDNA[*s].1, text(m)) } else { IDNA[*s].1.to_string() }),
    );
    let mut o = String::from("&[\n");
    for n in &w.norm_tests {
        let _ = writeln!(o, "    (\"{}\", \"{}\", \"{}\", \"{}\", \"{}\"),", text(&n[0]), text(&n[1]), text(&n[2]), text(&n[3]), text(&n[4]));
    }
    o.push(']');
    t.insert("unic/normal/tests/tables/conformance_tests_data.rsv".into(), Table::Text(o));
    for (n, tests, legacy) in [("grapheme_cluster_break", &w.gcb_tests, true), ("word_break", &w.wb_tests, false)] {
        let mut o = String::from("&[\n");
        let mut cats: BTreeMap<u32, String> = BTreeMap::new();
        for t in tests.iter().filter(|t| !t.chars.iter().any(|c| surrogate(c.0))) {
            cats.extend(t.chars.iter().cloned());
            let split = |also: &dyn Fn(&str) -> bool| {
                let mut parts = vec![esc(t.chars[0].0)];
                for (i, (b, rule)) in t.joins.iter().enumerate() {
                    if *b || also(rule) {
                        parts.push(String::new());
                    }
                    parts.last_mut().unwrap().push_str(&esc(t.chars[i + 1].0));
                }
                format!("&[\"{}\"]", parts.join("\", \""))
            };
            let all: String = t.chars.iter().map(|c| esc(c.0)).collect();
            let _ = write!(o, "    (\"{all}\", {}", split(&|_| false));
            if legacy {
                // GB9a and GB9b are for extended grapheme clusters only.
                let only = |r: &str| r == "9.1" || r == "9.2";
                if t.joins.iter().any(|j| only(&j.1)) {
                    let _ = write!(o, ", Some({})", split(&only));
                } else {
                    o.push_str(", None");
                }
            }
            o.push_str("),\n");
        }
        o.push(']');
        t.insert(format!("unic/segment/tests/tables/{n}_test_data.rsv"), Table::Text(o));
        t.insert(format!("unic/ucd/segment/tests/tables/{n}_test_data.rsv"), Table::Direct(cats.into_iter().collect()));
    }
    t
}

pub const PREAMBLE: &str = "// WARNING: Auto-generated by the `unic-gen` crate.\n// WARNING: DO NOT EDIT MANUALLY!\n";

/// A table as it is written to its file.
pub fn print(t: &Table) -> String {
    let mut o = String::from(PREAMBLE);
    match t {
        Table::Text(s) => o.push_str(s),
        Table::Range(v) => {
            o.push_str("CharDataTable::Range(&[\n");
            for (a, b, x) in v {
                let _ = writeln!(o, "    (chars!('{}'..='{}'), {x}),", esc(*a), esc(*b));
            }
            o.push_str("])");
        }
        Table::Direct(v) => {
            o.push_str("CharDataTable::Direct(&[\n");
            for (a, x) in v {
                let _ = writeln!(o, "    ('{}', {x}),", esc(*a));
            }
            o.push_str("])");
        }
    }
    o.push('\n');
    o
}

fn chr(s: &str) -> Option<u32> {
    u32::from_str_radix(s.strip_prefix("\\u{")?.strip_suffix('}')?, 16).ok()
}

/// Read a table file back.
pub fn parse(s: &str) -> Option<Table> {
    let body: String = s.lines().filter(|l| !l.starts_with("//")).map(|l| format!("{l}\n")).collect();
    let body = body.trim_end_matches('\n');
    let mut out_r = vec![];
    let mut out_d = vec![];
    let range = body.starts_with("CharDataTable::Range(&[");
    if !range && !body.starts_with("CharDataTable::Direct(&[") {
        return Some(Table::Text(body.to_string() + if s.ends_with("\n\n") { "\n" } else { "" }));
    }
    for l in body.lines().skip(1) {
        if l == "])" {
            break;
        }
        let l = l.trim().strip_prefix('(')?.strip_suffix("),")?;
        if range {
            let l = l.strip_prefix("chars!('")?;
            let (a, l) = l.split_once("'..='")?;
            let (b, l) = l.split_once("'), ")?;
            out_r.push((chr(a)?, chr(b)?, l.to_string()));
        } else {
            let (a, l) = l.strip_prefix('\'')?.split_once("', ")?;
            out_d.push((chr(a)?, l.to_string()));
        }
    }
    Some(if range { Table::Range(out_r) } else { Table::Direct(out_d) })
}

/// The first difference.
pub fn differs(got: &Table, want: &Table) -> Option<String> {
    fn at<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> Option<String> {
        let n = a.iter().zip(b).take_while(|x| x.0 == x.1).count();
        (n < a.len() || n < b.len()).then(|| format!("entry {n}: written {:?}, must be {:?}", a.get(n), b.get(n)))
    }
    // A range may as well run across the surrogates.
    let split = |v: &[(u32, u32, String)]| -> Vec<(u32, u32, String)> {
        v.iter()
            .flat_map(|(a, b, x)| if *a < 0xD800 && *b > 0xDFFF { vec![(*a, 0xD7FF, x.clone()), (0xE000, *b, x.clone())] } else { vec![(*a, *b, x.clone())] })
            .collect()
    };
    match (got, want) {
        (Table::Range(a), Table::Range(b)) => at(&split(a), b),
        (Table::Direct(a), Table::Direct(b)) => at(a, b),
        (Table::Text(a), Table::Text(b)) => at(&a.trim_end().lines().collect::<Vec<_>>(), &b.trim_end().lines().collect::<Vec<_>>()),
        _ => Some("another kind of table".into()),
    }
}

fn number(s: &str) -> Option<u8> {
    s.strip_prefix("CanonicalCombiningClass(")?.strip_suffix(')')?.parse().ok()
}
fn quoted(s: &str) -> Vec<String> {
    s.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect()
}
fn chars_in(s: &str) -> Vec<u32> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(p) = rest.find("\\u{") {
        rest = &rest[p + 3..];
        let e = rest.find('}').unwrap();
        v.push(u32::from_str_radix(&rest[..e], 16).unwrap());
    }
    v
}

/// The data that the tables of the repository encode.
pub fn load(read: &dyn Fn(&str) -> Option<String>) -> Option<World> {
    let range = |p: &str| match parse(&read(p)?)? {
        Table::Range(v) => Some(v),
        _ => None,
    };
    let direct = |p: &str| match parse(&read(p)?)? {
        Table::Direct(v) => Some(v),
        _ => None,
    };
    let text = |p: &str| match parse(&read(p)?)? {
        Table::Text(v) => Some(v),
        _ => None,
    };
    let map = |p: &str| -> Option<BTreeMap<u32, String>> {
        Some(range(p)?.into_iter().flat_map(|(a, b, v)| (a..=b).map(move |c| (c, v.clone()))).collect())
    };
    let numbers = |s: &str| -> Vec<u16> { s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect() };
    let version = |p: &str| -> Option<(u16, u16, u16)> {
        let v = numbers(&text(p)?);
        (v.len() == 3).then(|| (v[0], v[1], v[2]))
    };
    let mut w = World::default();
    w.ucd_version = version("unic/ucd/version/tables/unicode_version.rsv")?;
    w.idna_version = version("unic/idna/mapping/tables/unicode_version.rsv")?;
    let v = version("unic/emoji/char/tables/emoji_version.rsv")?;
    w.emoji_version = (v.0 as u8, v.1 as u8);
    for (c, v) in map("unic/ucd/age/tables/age_values.rsv")? {
        let v = numbers(&v);
        w.age.insert(c, (v[0], v[1], v[2]));
    }
    w.blocks = map("unic/ucd/block/tables/blocks.rsv")?.into_iter().map(|(c, s)| (c, quoted(&s).concat())).collect();
    let values = |n: &str| -> Option<BTreeMap<u32, String>> {
        Some(map(&format!("unic/ucd/segment/tables/{n}.rsv"))?.into_iter().map(|(c, s)| (c, s.rsplit("::").next().unwrap().to_string())).collect())
    };
    w.gcb = values("grapheme_cluster_break")?;
    w.wb = values("word_break")?;
    w.sb = values("sentence_break")?;
    for (_, n, p) in PROPS {
        if !p.is_empty() {
            w.props.insert(n, map(p)?.into_keys().collect());
        }
    }
    let gc = map("unic/ucd/category/tables/general_category.rsv")?;
    let bidi = map("unic/ucd/bidi/tables/bidi_class.rsv")?;
    let mirrored = map("unic/ucd/bidi/tables/bidi_mirrored.rsv")?;
    let ccc = map("unic/ucd/normal/tables/canonical_combining_class_values.rsv")?;
    let canon: BTreeMap<_, _> = direct("unic/ucd/normal/tables/canonical_decomposition_mapping.rsv")?.into_iter().collect();
    let compat: BTreeMap<_, _> = direct("unic/ucd/normal/tables/compatibility_decomposition_mapping.rsv")?.into_iter().collect();
    let mut composed = Set::new();
    for (_, s) in direct("unic/ucd/normal/tables/canonical_composition_mapping.rsv")? {
        composed.extend(chars_in(&s).chunks(2).map(|p| p[1]));
    }
    let mut pieces = BTreeMap::new();
    for l in text("unic/ucd/name/tables/name_values.rsd")?.lines() {
        let (k, v) = l.strip_prefix("const ")?.split_once(':')?;
        pieces.insert(k.to_string(), quoted(v).concat());
    }
    let names: BTreeMap<_, _> = direct("unic/ucd/name/tables/name_map.rsv")?.into_iter().collect();
    for (c, g) in &gc {
        let name = match names.get(c) {
            None => String::new(),
            Some(s) => {
                let s = s.strip_prefix("&[")?.strip_suffix(']')?;
                s.split(", ").map(|p| pieces.get(p).cloned()).collect::<Option<Vec<_>>>()?.join(" ")
            }
        };
        let decomp = match (canon.get(c), compat.get(c)) {
            (Some(m), None) => Some((None, chars_in(m))),
            (None, Some(m)) => Some((Some(m.strip_prefix('(')?.split(',').next()?.to_string()), chars_in(m))),
            (None, None) => None,
            _ => return None,
        };
        if let Some((None, m)) = &decomp {
            // Singletons are always excluded.
            if !composed.contains(c) {
                w.excl.insert(*c);
            }
        }
        w.data.insert(
            *c,
            Entry { name, gc: g.clone(), ccc: ccc.get(c).map_or(Some(0), |s| number(s))?, bidi: bidi.get(c)?.clone(), decomp, mirrored: mirrored.contains_key(c) },
        );
    }
    // Unassigned default ignorables are seen in the table of bidi classes only.
    w.props.insert("Default_Ignorable_Code_Point", bidi.iter().filter(|(c, v)| *v == "BN" && !gc.contains_key(c)).map(|x| *x.0).collect());
    w.jamo = direct("unic/ucd/name/tables/jamo.rsv")?.into_iter().map(|(c, s)| (c, quoted(&s).concat())).collect();
    let mut al: Vec<BTreeMap<u32, Vec<String>>> = vec![];
    for t in ALIAS_TYPES {
        al.push(direct(&format!("unic/ucd/name_aliases/tables/{}.rsv", t.2))?.into_iter().map(|(c, s)| (c, quoted(&s))).collect());
    }
    for (c, s) in direct("unic/ucd/name_aliases/tables/name_alias_types.rsv")? {
        for t in s.strip_prefix("&[")?.strip_suffix(']')?.split(", ") {
            let k = ALIAS_TYPES.iter().position(|x| x.1 == t)?;
            w.aliases.extend(al[k].get(&c)?.iter().map(|a| (c, k, a.clone())));
        }
    }
    for (c, v) in map("unic/idna/mapping/tables/idna_mapping.rsv")? {
        let k = IDNA.iter().position(|x| x.1 == v.split('(').next().unwrap())?;
        w.idna.insert(c, (k, chars_in(&v)));
    }
    for l in text("unic/normal/tests/tables/conformance_tests_data.rsv")?.lines() {
        let q = quoted(l);
        if q.len() == 5 {
            let f = |i: usize| chars_in(&q[i]);
            w.norm_tests.push([f(0), f(1), f(2), f(3), f(4)]);
        }
    }
    for (n, wb) in [("grapheme_cluster_break", false), ("word_break", true)] {
        let cats: BTreeMap<_, _> = direct(&format!("unic/ucd/segment/tests/tables/{n}_test_data.rsv"))?.into_iter().collect();
        for l in text(&format!("unic/segment/tests/tables/{n}_test_data.rsv"))?.lines() {
            let l = l.trim();
            if !l.starts_with('(') {
                continue;
            }
            let (main, legacy) = l.split_once(", Some(").unwrap_or((l, ""));
            let q = quoted(main);
            let chars = chars_in(&q[0]);
            let ends = |parts: &[String]| -> Set {
                let mut e = 0;
                parts.iter().map(|p| { e += chars_in(p).len() as u32; e }).collect()
            };
            let (b, lb) = (ends(&q[1..]), ends(&quoted(legacy)));
            let joins = (1..chars.len() as u32)
                .map(|i| (b.contains(&i), if lb.contains(&i) && !b.contains(&i) { "9.1".to_string() } else { "999.0".to_string() }))
                .collect();
            let t = BreakTest { chars: chars.iter().map(|c| Some((*c, cats.get(c)?.clone()))).collect::<Option<_>>()?, joins };
            if wb { w.wb_tests.push(t) } else { w.gcb_tests.push(t) }
        }
    }
    Some(w)
}
