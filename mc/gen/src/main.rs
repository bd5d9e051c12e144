//! G01 and G02: the table generator (`unic-gen`), run as the program it is.
mod run;
mod world;
use mc_common::util::*;
use mc_common::*;
use run::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use world::*;

const AGES: [(u16, u16, u16); 3] = [(1, 1, 0), (2, 0, 0), (6, 0, 1)];
const BLOCKS: [&str; 3] = ["Basic Latin", "Latin-1 Supplement", "Variation Selectors"];
const GCBS: [&str; 3] = ["CR", "Extend", "L"];
const WBS: [&str; 3] = ["Double_Quote", "MidLetter", "E_Base"];
const SBS: [&str; 3] = ["OLetter", "SContinue", "Sp"];
const GCS: [&str; 3] = ["Lu", "Nd", "Cc"];
const BIDI: [&str; 3] = ["L", "AL", "NSM"];
const JAMO: [&str; 3] = ["G", "GG", "YAE"];

/// Say `d` (0: nothing) about `c`, in every file.
fn put(w: &mut World, c: u32, d: u8) {
    let sur = (0xD800..0xE000).contains(&c);
    for (k, p) in PROPS.iter().enumerate() {
        if !sur && (d as usize + k) % 3 == 1 {
            w.props.entry(p.1).or_default().insert(c);
        }
    }
    if d % 2 == 1 {
        w.excl.insert(c);
    }
    if d == 0 {
        return;
    }
    let v = |r: usize| (d as usize - 1 + r) % 3;
    w.age.insert(c, AGES[v(0)]);
    w.blocks.insert(c, BLOCKS[v(1)].into());
    w.gcb.insert(c, GCBS[v(2)].into());
    w.wb.insert(c, WBS[v(0)].into());
    w.sb.insert(c, SBS[v(1)].into());
    if sur {
        return;
    }
    let name = ["", "LETTER A-B", "MARK-B"][v(0)];
    let e = Entry { name: name.into(), gc: GCS[v(0)].into(), ccc: [0, 9, 230][v(1)], bidi: BIDI[v(2)].into(), decomp: None, mirrored: v(1) == 0 };
    w.data.insert(c, e);
    w.jamo.insert(c, JAMO[v(2)].into());
    let i = [(0, vec![]), (2, vec![0x61]), (2, vec![0x10FFFF, 0x62])];
    w.idna.insert(c, i[v(1)].clone());
}

fn base() -> World {
    World { ucd_version: (10, 0, 0), idna_version: (11, 2, 3), emoji_version: (5, 0), ..World::default() }
}

fn place(l: &[u8], at: &[u32]) -> World {
    let mut w = base();
    for (d, c) in l.iter().zip(at) {
        put(&mut w, *c, *d);
    }
    w
}

struct Gen {
    place: Arc<Place>,
}
impl Clone for Gen {
    fn clone(&self) -> Self {
        Gen { place: self.place.clone() }
    }
}

impl Gen {
    /// The generator, on the files of `w` in layout `l`, must write just its tables.
    fn check(&self, w: &World, l: &Layout, key: impl Fn() -> String, m: &mut W) -> Option<Left> {
        m.state();
        let f = files(w, l);
        m.steps(f.len());
        let left = self.place.run(&f, &[]);
        m.trace();
        if !left.ok {
            m.fail(key(), format!("the generator stopped: {}", tail(&left.said)));
            return None;
        }
        let want = expected(w);
        for (n, t) in &want {
            m.steps(1);
            match left.files.get(n).map(|s| (s, parse(s))) {
                None => m.fail(key(), format!("{n} is not written")),
                Some((s, None)) => m.fail(format!("{n}: {}", key()), format!("unreadable table {}", cut(s))),
                Some((s, Some(got))) => {
                    m.outcome(hash_bytes(s.as_bytes()));
                    if let Some(d) = differs(&got, t) {
                        m.fail(format!("{n}: {}", key()), d);
                    }
                }
            }
        }
        for n in left.files.keys() {
            if !want.contains_key(n) {
                m.fail(key(), format!("{n} is written"));
            }
        }
        Some(left)
    }
}
fn tail(s: &str) -> String {
    s.lines().find(|l| l.contains("panicked") || l.contains("rror")).unwrap_or("").chars().take(200).collect::<String>() + " " + &s.lines().nth(1).unwrap_or("").chars().take(200).collect::<String>()
}
fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
fn show(l: &[u8], at: &[u32]) -> String {
    l.iter().zip(at).map(|(d, c)| format!("{c:04X}:{d}")).collect::<Vec<_>>().join(" ")
}

/// Every word of length `n` over `k` letters, each at a place of its own.
fn all_words(k: u64, n: u32, from: u32, gap: u32) -> World {
    let mut w = base();
    let mut l = vec![];
    for i in 0..k.pow(n) {
        word_k(k, n, i, &mut l);
        for (j, d) in l.iter().enumerate() {
            put(&mut w, from + i as u32 * gap + j as u32, *d);
        }
    }
    w
}

const NL: u64 = LAYOUTS.len() as u64;

fn g01(c: &mut Check, g: Gen) {
    let thorough = c.thorough();
    let n = c.by(5, 6);
    let g1 = g.clone();
    c.family("words", "every word over {nothing, three values} at places of its own, in every file at once; every layout", NL, move |i, m| {
        g1.check(&all_words(4, n, 0x20000, 8), &LAYOUTS[i as usize], || format!("all words of {n}, layout {i}"), m);
        m.sample(|| format!("{} words, {:?}", 4u64.pow(n), LAYOUTS[i as usize]));
    });
    // One word alone: first, last, around the surrogates, and where planes meet.
    for (name, at) in [
        ("first", vec![0u32, 1, 2, 3]),
        ("last", vec![0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF]),
        ("surrogates", vec![0xD7FE, 0xD7FF, 0xE000, 0xE001]),
        ("planes", vec![0xFFFE, 0xFFFF, 0x10000, 0x10001]),
    ] {
        let layouts = if thorough { NL } else { 2 };
        let g1 = g.clone();
        c.family(name, &format!("every word over {{nothing, three values}} at {at:04X?} alone"), 256 * layouts, move |i, m| {
            let (i, l) = (i / layouts, if layouts == NL { i % NL } else { (i / layouts * 5 + i % layouts * 3) % NL });
            let mut word = vec![];
            word_k(4, 4, i, &mut word);
            g1.check(&place(&word, &at), &LAYOUTS[l as usize], || format!("{} layout {l}", show(&word, &at)), m);
        });
    }
    let g1 = g.clone();
    c.family("spanning", "values that span or border on the surrogates, where the files may say so", 4 * 4 * 4 * c.by(2, NL), move |i, m| {
        let (i, l) = (i % 64, (i / 64 * 3 + i) % NL);
        let mut w = base();
        let mut word = vec![];
        word_k(4, 3, i, &mut word);
        for (d, r) in word.iter().zip([0xD7FD..=0xD7FF, 0xD800..=0xDFFF, 0xE000..=0xE002]) {
            for c in r {
                put(&mut w, c, *d);
            }
        }
        // As UnicodeData.txt lists them.
        for c in 0xD800..=0xDFFF {
            w.data.insert(c, Entry { name: String::new(), gc: "Cs".into(), ccc: 0, bidi: "L".into(), decomp: None, mirrored: false });
        }
        g1.check(&w, &LAYOUTS[l as usize], || format!("around the surrogates {word:?} layout {l}"), m);
    });
    // Bidi classes of what is not assigned.
    let mut edges: Vec<u32> = BIDI_DEFAULTS.iter().flat_map(|x| [x.0, x.1 + 1]).collect();
    edges.sort();
    edges.dedup();
    let e2 = edges.clone();
    let g1 = g.clone();
    c.family("bidi-defaults", "every word of 4 over {unassigned, default ignorable, L, AL, R} around every border of the default bidi classes", 625, move |i, m| {
        let mut word = vec![];
        word_k(5, 4, i, &mut word);
        let mut w = base();
        for e in &e2 {
            for (j, d) in word.iter().enumerate() {
                let c = e - 2 + j as u32;
                match d {
                    0 => (),
                    1 => {
                        w.props.entry("Default_Ignorable_Code_Point").or_default().insert(c);
                    }
                    d => {
                        let e = Entry { name: "A".into(), gc: "Lo".into(), ccc: 0, bidi: ["L", "AL", "R"][*d as usize - 2].into(), decomp: None, mirrored: false };
                        w.data.insert(c, e);
                    }
                }
            }
        }
        let l = i % NL;
        g1.check(&w, &LAYOUTS[l as usize], || format!("bidi defaults {word:?} layout {l}"), m);
    });
    // IDNA: every pair and triple of neighbours.
    let g1 = g.clone();
    c.family("idna", "every sequence of three neighbouring entries over the seven statuses and their mappings", NL, move |i, m| {
        let mut kinds: Vec<(usize, Vec<u32>)> = vec![];
        for (k, s) in IDNA.iter().enumerate() {
            if s.2 {
                kinds.push((k, vec![0x61]));
                kinds.push((k, vec![0x61, 0x10000]));
                if s.0 == "deviation" {
                    kinds.push((k, vec![]));
                }
            } else {
                kinds.push((k, vec![]));
            }
        }
        let n = kinds.len() as u64 + 1;
        let mut w = base();
        let mut word = vec![];
        for j in 0..n * n * n {
            word_k(n, 3, j, &mut word);
            for (o, d) in word.iter().enumerate() {
                if *d > 0 {
                    w.idna.insert(0x30000 + j as u32 * 5 + o as u32, kinds[*d as usize - 1].clone());
                }
            }
        }
        g1.check(&w, &LAYOUTS[i as usize], || format!("idna, layout {i}"), m);
    });
    // Names.
    let g1 = g.clone();
    c.family("names", "every set of up to three characters named by words of up to three pieces", 5 * 5 * 5, move |i, m| {
        let pieces = ["A", "B-C", "-D", "E1", "WITH"];
        let mut w = base();
        let mut word = vec![];
        // All names of up to three pieces that start with the i-th triple's pieces, in turn.
        for j in 0..words_upto(5, 3) {
            word_at(5, j, &mut word);
            if word.is_empty() || !word.contains(&((i % 5) as u8)) || word.contains(&((i / 5 % 5) as u8)) && i % 2 == 0 {
                continue;
            }
            let name = word.iter().map(|p| pieces[*p as usize]).collect::<Vec<_>>().join(" ");
            w.data.insert(0x41 + (j as u32) * (1 + (i as u32) / 25), Entry { name, gc: "Lo".into(), ccc: 0, bidi: "L".into(), decomp: None, mirrored: false });
        }
        let l = i % NL;
        g1.check(&w, &LAYOUTS[l as usize], || format!("names {i} layout {l}"), m);
    });
    // Aliases: order and repetition.
    let g1 = g.clone();
    c.family("aliases", "every sequence of up to three alias lines of one character, over five types and two aliases", NL, move |i, m| {
        let mut w = base();
        let mut word = vec![];
        for j in 0..words_upto(10, 3) {
            word_at(10, j, &mut word);
            for d in &word {
                w.aliases.push((0x2100 + j as u32 * 2, *d as usize / 2, ["ALIAS ONE", "TWO-2"][*d as usize % 2].into()));
            }
        }
        if i % 2 == 1 {
            // The lines of one character need not be together.
            w.aliases.sort_by_key(|x| x.1);
        }
        g1.check(&w, &LAYOUTS[i as usize], || format!("aliases layout {i}"), m);
    });
    // Decompositions: all lists of up to three entries.
    let g1 = g.clone();
    let kinds = decomps();
    let n = kinds.len() as u64;
    c.family("decompositions", "every ordered pair of decomposing characters, excluded from composition or not", n * n * 4, move |i, m| {
        let (a, b, x) = (i / 4 / n, i / 4 % n, i % 4);
        let mut w = base();
        let mut all = true;
        for (j, (k, c)) in [(a, 0x100u32), (b, 0x1F000)].into_iter().enumerate() {
            let d = kinds[k as usize].clone();
            let e = Entry { name: "X".into(), gc: "Ll".into(), ccc: 0, bidi: "L".into(), decomp: d, mirrored: false };
            w.data.insert(c, e);
            if x >> j & 1 == 1 {
                w.excl.insert(c);
            }
            all &= w.data[&c].decomp.is_some();
        }
        // Two primary composites never share a decomposition.
        if a == b && matches!(&kinds[a as usize], Some((None, v)) if v.len() == 2) && x == 0 {
            return;
        }
        let l = i % NL;
        g1.check(&w, &LAYOUTS[l as usize], || format!("decompositions {:?} {:?} excluded {x:02b} layout {l}", kinds[a as usize], kinds[b as usize]), m);
        if all {
            m.sample(|| format!("{:?} {:?}", kinds[a as usize], kinds[b as usize]));
        }
    });
    // Exclusions: every subset of a window of adjoining composites.
    let g1 = g.clone();
    c.family("exclusions", "every subset of a window of 7 adjoining composites, excluded from composition", 128 * 3 * 2, move |i, m| {
        let (start, x, l) = ([0x1F00u32, 0xFFFD][(i / 128 / 3) as usize], i / 3 % 128, i % 3);
        let mut w = base();
        for j in 0..7u32 {
            let e = Entry { name: "X".into(), gc: "Ll".into(), ccc: 0, bidi: "L".into(), decomp: Some((None, vec![0x41 + j % 2, 0x300 + j])), mirrored: false };
            w.data.insert(start + j, e);
            if x >> j & 1 == 1 {
                w.excl.insert(start + j);
            }
        }
        g1.check(&w, &LAYOUTS[l as usize], || format!("exclusions {start:X} {x:07b} layout {l}"), m);
    });
    // The composition table: sorted by both characters, whatever their planes.
    let g1 = g.clone();
    let pairs: Vec<(u32, u32)> = [0x41u32, 0x10041, 0x10FFFF].iter().flat_map(|a| [0u32, 0x300, 0x301, 0xFFFF, 0x10001, 0x10300].iter().map(move |b| (*a, *b))).collect();
    let mut sets: Vec<Vec<(u32, u32)>> = vec![];
    for i in 0..pairs.len() {
        for j in i..pairs.len() {
            for k in j..pairs.len() {
                let mut v = vec![pairs[i], pairs[j], pairs[k]];
                v.dedup();
                if v.len() == 3 || i == j {
                    sets.push(v);
                }
            }
        }
    }
    c.family("compositions", "every set of up to three composing pairs over three starters and six followers, in both orders of the composites", sets.len() as u64 * 2, move |i, m| {
        let mut v = sets[i as usize / 2].clone();
        if i % 2 == 1 {
            v.reverse();
        }
        let mut w = base();
        for (j, (a, b)) in v.iter().enumerate() {
            let e = Entry { name: "X".into(), gc: "Ll".into(), ccc: 0, bidi: "L".into(), decomp: Some((None, vec![*a, *b])), mirrored: false };
            w.data.insert([0xC0, 0x1FFF, 0x20000][j], e);
        }
        g1.check(&w, &LAYOUTS[(i % NL) as usize], || format!("compositions {v:04X?}"), m);
    });
    // Every value of every file, and numbers of every length.
    let g1 = g.clone();
    c.family("values", "every value that the files of Unicode 10 give, every combining class, ages, mappings and decompositions of numbers of every length; every layout", NL, move |i, m| {
        let mut w = base();
        let mut at = 0x20000u32;
        let mut next = |gap: u32| {
            at += gap;
            at
        };
        for v in "CR LF Control Extend ZWJ Regional_Indicator Prepend SpacingMark L V T LV LVT E_Base E_Modifier Glue_After_Zwj E_Base_GAZ".split(' ') {
            w.gcb.insert(next(1), v.into());
        }
        for v in "CR LF Newline Extend ZWJ Regional_Indicator Format Katakana Hebrew_Letter ALetter Single_Quote Double_Quote MidNumLet MidLetter MidNum Numeric ExtendNumLet E_Base E_Modifier Glue_After_Zwj E_Base_GAZ".split(' ') {
            w.wb.insert(next(1), v.into());
        }
        for v in "CR LF Sep Extend Format Sp Lower Upper OLetter Numeric ATerm SContinue STerm Close".split(' ') {
            w.sb.insert(next(1), v.into());
        }
        let e = Entry { name: String::new(), gc: "Lo".into(), ccc: 0, bidi: "L".into(), decomp: None, mirrored: false };
        for v in "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Co".split(' ') {
            for mirrored in [false, true] {
                w.data.insert(next(1), Entry { gc: v.into(), mirrored, ..e.clone() });
            }
        }
        for v in "L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI".split(' ') {
            w.data.insert(next(1), Entry { bidi: v.into(), ..e.clone() });
        }
        for ccc in 0..=254 {
            w.data.insert(next(1), Entry { ccc, ..e.clone() });
        }
        let n = [0u16, 1, 9, 10, 12, 100, 65535];
        for j in 0..343usize {
            w.age.insert(next(1), (n[j / 49], n[j / 7 % 7], n[j % 7]));
        }
        let cs = [0u32, 0x61, 0xFFFF, 0x10000, 0x10FFFF];
        let mut word = vec![];
        for j in 1..words_upto(5, 4) {
            word_at(5, j, &mut word);
            let v: Vec<u32> = word.iter().map(|x| cs[*x as usize]).collect();
            if v.len() < 4 {
                for (k, s) in IDNA.iter().enumerate() {
                    if s.2 {
                        w.idna.insert(next(1), (k, v.clone()));
                    }
                }
            }
            w.data.insert(next(1), Entry { decomp: Some((Some("compat".into()), v)), ..e.clone() });
        }
        for n in 1..=18 {
            w.data.insert(next(1), Entry { decomp: Some((Some("isolated".into()), (0..n).map(|k| 0x620 + k * 0x3000).collect())), ..e.clone() });
        }
        for c in cs {
            w.data.insert(next(1), Entry { decomp: Some((None, vec![c])), ..e.clone() });
        }
        for (k, s) in "G GG N D DD R M B BB S SS  J JJ C K T P H A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I".split(' ').enumerate() {
            w.jamo.insert(next(1 + k as u32 % 2), s.into());
        }
        for s in ["Basic Latin", "Latin-1 Supplement", "NKo", "CJK Unified Ideographs Extension B", "Phags-pa", "Supplementary Private Use Area-B"] {
            w.blocks.insert(next(1), s.into());
        }
        g1.check(&w, &LAYOUTS[i as usize], || format!("every value, layout {i}"), m);
    });
    // Conformance test data.
    let g1 = g.clone();
    let rules = ["3.0", "9.0", "9.1", "9.2", "999.0"];
    c.family("break-tests", "every break test of up to three characters over rules and breaks, with surrogates left out", NL, move |i, m| {
        let chars = [(0x20u32, "Other"), (0xA, "LF"), (0x308, "Extend_FE"), (0xD800, "Control"), (0x1F466, "E_Base_GAZ")];
        let mut w = base();
        let mut word = vec![];
        for j in 0..words_upto(5, 3) {
            word_at(5, j, &mut word);
            if word.is_empty() {
                continue;
            }
            let k = word.len() as u32 - 1;
            for t in 0..10u64.pow(k) {
                let mut join = vec![];
                word_k(10, k, t, &mut join);
                // GB9a and GB9b only ever join.
                if join.iter().any(|x| x % 2 == 1 && (rules[*x as usize / 2] == "9.1" || rules[*x as usize / 2] == "9.2")) {
                    continue;
                }
                let b = BreakTest {
                    chars: word.iter().map(|c| (chars[*c as usize].0, chars[*c as usize].1.to_string())).collect(),
                    joins: join.iter().map(|x| (x % 2 == 1, rules[*x as usize / 2].to_string())).collect(),
                };
                if (j + t + i) % 2 == 0 || k < 2 {
                    w.gcb_tests.push(b.clone());
                }
                if (j + t + i) % 2 == 1 || k < 2 {
                    w.wb_tests.push(b);
                }
            }
        }
        g1.check(&w, &LAYOUTS[i as usize], || format!("break tests layout {i}"), m);
        m.sample(|| format!("{} grapheme and {} word tests", w.gcb_tests.len(), w.wb_tests.len()));
    });
    let g1 = g.clone();
    c.family("normalization-tests", "normalization tests over boundary strings in every column", NL, move |i, m| {
        let strings = [vec![0x41u32], vec![0x41, 0x300], vec![0x10FFFF], vec![0x1D15E, 0x41, 0xFFFF], vec![0x0]];
        let mut w = base();
        let mut word = vec![];
        for j in 0..5u64.pow(5) {
            word_k(5, 5, j, &mut word);
            let s = |k: usize| strings[word[k] as usize].clone();
            w.norm_tests.push([s(0), s(1), s(2), s(3), s(4)]);
        }
        g1.check(&w, &LAYOUTS[i as usize], || format!("normalization tests layout {i}"), m);
    });
    let g1 = g.clone();
    c.family("versions", "version numbers over {0, 1, 9, 10, 255, 65535} in each of the three read-me files", 216, move |i, m| {
        let v = [0u16, 1, 9, 10, 255, 65535];
        let (a, b, x) = (v[i as usize / 36], v[i as usize / 6 % 6], v[i as usize % 6]);
        let w = World { ucd_version: (a, b, x), idna_version: (x, a, b), emoji_version: (b as u8, x as u8), ..World::default() };
        g1.check(&w, &LAYOUTS[(i % NL) as usize], || format!("versions {a} {b} {x}"), m);
    });
}

fn decomps() -> Vec<Option<(Option<String>, Vec<u32>)>> {
    let c = |v: &[u32]| Some((None, v.to_vec()));
    let mut out = vec![None, c(&[0x41]), c(&[0x41, 0x300]), c(&[0x41, 0x301]), c(&[0x42, 0x300]), c(&[0x11099, 0x110BA]), c(&[0x10FFFF, 0x0])];
    for t in ["noBreak", "compat", "font", "initial", "medial", "final", "isolated", "circle", "super", "sub", "vertical", "wide", "narrow", "small", "square", "fraction"] {
        out.push(Some((Some(t.to_string()), vec![0x20])));
    }
    out.push(Some((Some("compat".into()), vec![0x20, 0x308])));
    out.push(Some((Some("fraction".into()), vec![0x31, 0x2044, 0x31, 0x30])));
    out
}

const PARTS: [&str; 5] = ["ucd", "normal", "segment", "idna", "emoji"];
fn part_of(path: &str) -> usize {
    let p: Vec<&str> = path.split('/').collect();
    PARTS.iter().position(|x| *x == p[1]).unwrap_or(9)
}
fn dir_of(path: &str) -> &str {
    path.rsplit_once('/').unwrap().0
}

fn g02(c: &mut Check, g: Gen) {
    let repo = repo_root();
    let read = {
        let repo = repo.clone();
        move |p: &str| std::fs::read_to_string(repo.join(p)).ok()
    };
    let whole = load(&read);
    let known: Vec<String> = expected(&World { ..base() }).into_keys().collect();
    // What is in the folders that the generator owns.
    let mut committed: BTreeMap<String, Option<String>> = BTreeMap::new();
    let dirs: BTreeSet<String> = known.iter().map(|k| dir_of(k).to_string()).collect();
    for d in &dirs {
        for e in std::fs::read_dir(repo.join(d)).into_iter().flatten().flatten() {
            let n = format!("{d}/{}", e.file_name().to_string_lossy());
            committed.insert(n.clone(), read(&n));
        }
    }
    for k in &known {
        committed.entry(k.clone()).or_insert(None);
    }
    // One character a line is slow on the whole database: G01 does that on small ones.
    let layouts: Vec<usize> = if c.thorough() { vec![0, 1, 6, 4, 5, 3] } else { vec![0, 1, 6, 5] };
    let (g1, ls, names) = (g.clone(), layouts.clone(), committed.clone());
    c.family("committed", "the committed tables from files with the data they encode, in several layouts; every file byte for byte", layouts.len() as u64, move |i, m| {
        let Some(w) = &whole else {
            return m.fail("committed tables", "they cannot be read");
        };
        let l = ls[i as usize];
        m.sample(|| format!("{:?}, {} lines", LAYOUTS[l], files(w, &LAYOUTS[l]).iter().map(|f| f.1.lines().count()).sum::<usize>()));
        let Some(left) = g1.check(w, &LAYOUTS[l], || format!("layout {l}"), m) else { return };
        for (n, s) in &names {
            m.state();
            let got = left.files.get(n);
            if got != s.as_ref() {
                let at = got.zip(s.as_ref()).and_then(|(a, b)| a.lines().zip(b.lines()).enumerate().find(|x| x.1 .0 != x.1 .1));
                m.fail(n.clone(), format!("layout {l}: written and committed differ: {at:?} (written: {}, committed: {})", got.is_some(), s.is_some()));
            }
        }
        for n in left.files.keys() {
            if !names.contains_key(n) {
                m.fail(n.clone(), "written but not committed");
            }
        }
    });

    // Component choices, on folders that hold old files.
    let mut small = all_words(4, 3, 0x20000, 8);
    small.norm_tests.push([vec![0x41], vec![0x41], vec![0x41], vec![0x41], vec![0x41]]);
    small.gcb_tests.push(BreakTest { chars: vec![(0x20, "Other".into()), (0xA, "LF".into())], joins: vec![(true, "4.0".into())] });
    small.wb_tests.push(BreakTest { chars: vec![(0x20, "Other".into()), (0xA, "LF".into())], joins: vec![(true, "3.2".into())] });
    for (c, v) in [(0x20100, vec![0x20000]), (0x20101, vec![0x20000, 0x20001]), (0x20102, vec![0x20001, 0x20000])] {
        let e = small.data.get(&0x20001).cloned().unwrap_or(Entry { name: "A".into(), gc: "Lo".into(), ccc: 0, bidi: "L".into(), decomp: None, mirrored: false });
        small.data.insert(c, Entry { decomp: Some((None, v)), ..e });
    }
    small.excl.insert(0x20102);
    let small = Arc::new(small);
    let want: Arc<BTreeMap<String, String>> = Arc::new(expected(&small).into_iter().map(|(n, t)| (n, print(&t))).collect());
    let mut old: Vec<(String, String)> = vec![];
    for d in &dirs {
        old.push((format!("{d}/stale.rsv"), "stale".into()));
        old.push((format!("{d}/below/deep.rsv"), "deep".into()));
        old.push((format!("{}/lib.rs", dir_of(d)), "source".into()));
        old.push((format!("{}/tables_old/x.rsv", dir_of(d)), "other".into()));
    }
    for n in &known {
        old.push((n.clone(), "old".into()));
    }
    old.push(("unic/ucd/utils/tables/x.rsv".into(), "foreign".into()));
    old.push(("unic/segment/tables/x.rsv".into(), "foreign".into()));
    let old = Arc::new(old);
    /// What must be there after `parts` (none: all) are generated over `before`.
    fn after(before: &BTreeMap<String, String>, want: &BTreeMap<String, String>, parts: &[usize]) -> BTreeMap<String, String> {
        let chosen = |n: &str| parts.is_empty() || parts.contains(&part_of(n));
        let owned: BTreeSet<&str> = want.keys().filter(|n| chosen(n)).map(|n| dir_of(n)).collect();
        let mut out: BTreeMap<String, String> =
            before.iter().filter(|(n, _)| !owned.iter().any(|d| n.starts_with(&format!("{d}/")))).map(|(n, s)| (n.clone(), s.clone())).collect();
        out.extend(want.iter().filter(|(n, _)| chosen(n)).map(|(n, s)| (n.clone(), s.clone())));
        out
    }
    fn same(m: &mut W, key: String, got: &BTreeMap<String, String>, want: &BTreeMap<String, String>) {
        m.steps(want.len());
        for n in got.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
            if got.get(n) != want.get(n) {
                return m.fail(key, format!("{n}: left {:?}, must be {:?}", got.get(n).map(|s| cut(s)), want.get(n).map(|s| cut(s))));
            }
        }
    }
    // All arrangements of up to five distinct components, and repeats of up to three.
    let mut lists: Vec<Vec<u8>> = vec![];
    for n in 0..=5u32 {
        let mut w = vec![];
        for i in 0..5u64.pow(n) {
            word_k(5, n, i, &mut w);
            let distinct = w.iter().collect::<BTreeSet<_>>().len() == w.len();
            let rising = w.windows(2).all(|x| x[0] < x[1]);
            if n <= 2 || rising || distinct && c.thorough() {
                lists.push(w.clone());
            }
        }
    }
    let (g1, w1, o1, s1, l1) = (g.clone(), want.clone(), old.clone(), small.clone(), lists.clone());
    c.family("components", "component choices over folders with old files: the chosen components' folders, and no others, are made anew", lists.len() as u64, move |i, m| {
        m.state();
        let list: Vec<usize> = l1[i as usize].iter().map(|x| *x as usize).collect();
        let args: Vec<&str> = list.iter().map(|x| PARTS[*x]).collect();
        let mut f = files(&s1, &LAYOUTS[0]);
        f.extend(o1.iter().cloned());
        let left = g1.place.run(&f, &args);
        m.trace();
        if !left.ok {
            return m.fail(format!("{args:?}"), format!("the generator stopped: {}", tail(&left.said)));
        }
        let before: BTreeMap<String, String> = o1.iter().cloned().collect();
        let must = after(&before, &w1, &list);
        m.outcome(i);
        m.sample(|| format!("{args:?}: {} files", must.len()));
        same(m, format!("{args:?}"), &left.files, &must);
        // Again, on what it left: nothing changes.
        let mut f = files(&s1, &LAYOUTS[0]);
        f.extend(left.files.iter().map(|(n, s)| (n.clone(), s.clone())));
        let again = g1.place.run(&f, &args);
        m.trace();
        same(m, format!("{args:?} twice"), &again.files, &must);
    });
    // A name that is no component: refused before anything is touched.
    let bad: Vec<String> = {
        let mut v: Vec<String> = ["", " ucd", "UCD", "ucd ", "uc", "ucdx", "norm", "all", "unic", "ucd,idna", "Emoji", "segments", "idna/", "-x", "--ucd"].iter().map(|s| s.to_string()).collect();
        for p in PARTS {
            for i in 0..p.len() {
                v.push(format!("{}{}", &p[..i], &p[i + 1..]));
                v.push(format!("{}{}{}", &p[..i], &p[i..i + 1].to_uppercase(), &p[i + 1..]));
            }
        }
        v
    };
    let (g1, o1, s1) = (g.clone(), old.clone(), small.clone());
    c.family("refused", "names that are no component, alone, before and after a real one: an error, and nothing is touched", bad.len() as u64 * 3, move |i, m| {
        m.state();
        let b = &bad[i as usize / 3];
        let args: Vec<&str> = match i % 3 {
            0 => vec![b],
            1 => vec![b, "ucd"],
            _ => vec!["idna", b],
        };
        let mut f = files(&s1, &LAYOUTS[0]);
        f.extend(o1.iter().cloned());
        let left = g1.place.run(&f, &args);
        m.trace();
        m.outcome(left.ok as u64);
        if left.ok {
            m.fail(format!("{args:?}"), "accepted");
        }
        same(m, format!("{args:?}"), &left.files, &o1.iter().cloned().collect());
    });
    // Missing and unreadable inputs never pass for success.
    let n = files(&small, &LAYOUTS[0]).len() as u64;
    let (g1, s1, w1) = (g.clone(), small.clone(), want.clone());
    c.family("faults", "each input file missing or a folder: the run reports failure, unless the tables are right all the same", n * 2, move |i, m| {
        m.state();
        let mut f = files(&s1, &LAYOUTS[0]);
        let (name, _) = f.remove(i as usize / 2);
        if i % 2 == 1 {
            f.push((format!("{name}/x"), String::new()));
        }
        let left = g1.place.run(&f, &[]);
        m.trace();
        m.outcome(left.ok as u64);
        if left.ok && left.files != *w1 {
            m.fail(format!("{name} {}", ["missing", "a folder"][i as usize % 2]), "the run reports success, but the tables are wrong");
        }
    });
    // Nor do tables that cannot be written.
    let mut sizes: Vec<u64> = want.values().map(|s| s.len() as u64).collect();
    sizes.sort();
    sizes.dedup();
    let mut limits: Vec<u64> = sizes.iter().flat_map(|n| [n - 1, *n, n / 2]).collect();
    limits.extend([0, 1, 75, 76]);
    limits.sort();
    limits.dedup();
    let (g1, s1, w1, l1) = (g.clone(), small.clone(), want.clone(), limits.clone());
    c.family("write limits", "every component and all, no file longer than n bytes, n around the length of every table: the run reports failure, or the tables are right", limits.len() as u64 * 6, move |i, m| {
        m.state();
        let n = l1[i as usize / 6];
        let list: Vec<usize> = (0..5).filter(|x| i % 6 == 5 || i % 6 == *x as u64).collect();
        let args: Vec<&str> = list.iter().map(|x| PARTS[*x]).collect();
        let must = after(&BTreeMap::new(), &w1, &list);
        let left = g1.place.run_with(&files(&s1, &LAYOUTS[0]), &args, Some(n), None);
        m.trace();
        m.outcome(left.ok as u64);
        let fits = must.values().all(|s| s.len() as u64 <= n);
        if left.ok && left.files != must {
            m.fail(format!("{args:?}, files of at most {n} bytes"), "the run reports success, but the tables are wrong");
        } else if fits && !left.ok {
            m.fail(format!("{args:?}, files of at most {n} bytes"), format!("the run reports failure: {}", tail(&left.said)));
        }
    });
    let mut dirs: Vec<String> = want.keys().map(|p| p[..p.rfind('/').unwrap_or(0)].to_string()).filter(|d| !d.is_empty()).collect();
    dirs.sort();
    dirs.dedup();
    let (g1, s1, w1, d1, o1) = (g.clone(), small.clone(), want.clone(), dirs.clone(), old.clone());
    c.family("locked folders", "each folder of tables with an old file in it, not to be changed: the run reports failure, or the tables are right", dirs.len() as u64, move |i, m| {
        m.state();
        let d = &d1[i as usize];
        let mut f = files(&s1, &LAYOUTS[0]);
        f.extend(o1.iter().filter(|(p, _)| !p.starts_with(&format!("{d}/"))).cloned());
        f.push((format!("{d}/old.rsv"), "old".into()));
        let left = g1.place.run_with(&f, &[], None, Some(d));
        m.trace();
        m.outcome(left.ok as u64);
        if left.ok && left.files != *w1 {
            m.fail(format!("{d} locked"), "the run reports success, but the tables are wrong");
        }
    });
}

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    let mut c = Check::new(&p);
    c.assume("The generator runs as an unprivileged user in a scratch folder; its working folder and its arguments are its only configuration.");
    let g = Gen { place: Arc::new(Place::new()) };
    match &p[..] {
        "G01" => g01(&mut c, g),
        "G02" => g02(&mut c, g),
        _ => std::process::exit(2),
    }
    c.finish()
}
