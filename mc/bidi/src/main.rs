mod oracle;
use mc_common::util::*;
use mc_common::*;
use oracle::{C::*, *};
use unic_bidi::{BidiClass, BidiInfo, Level};

/// Characters of each class, shortest UTF-8 first (Unicode 10.0.0 DerivedBidiClass).
fn reps(c: C) -> &'static [char] {
    match c {
        L => &['a', '\u{e9}', '\u{939}', '\u{10400}'],
        R => &['\u{5d0}', '\u{200f}', '\u{10800}', '\u{7c0}'],
        AL => &['\u{627}', '\u{fb50}', '\u{1ee00}', '\u{710}'],
        EN => &['0', '\u{b2}', '\u{2070}', '\u{1d7ce}'],
        ES => &['+', '\u{207a}', '-', '\u{ff0b}'],
        ET => &['#', '\u{a3}', '\u{2030}', '$'],
        AN => &['\u{660}', '\u{600}', '\u{10e60}', '\u{66b}'],
        CS => &[',', '\u{a0}', '\u{202f}', ':'],
        NSM => &['\u{300}', '\u{93c}', '\u{101fd}', '\u{5b0}'],
        BN => &['\u{1}', '\u{ad}', '\u{200b}', '\u{1d173}'],
        B => &['\n', '\u{85}', '\u{2029}', '\u{1c}'],
        S => &['\t', '\u{1f}', '\u{b}', '\t'],
        WS => &[' ', '\u{1680}', '\u{2003}', '\u{c}'],
        ON => &['!', '\u{a6}', '\u{2016}', '\u{10101}'],
        LRE => &['\u{202a}'],
        LRO => &['\u{202d}'],
        RLE => &['\u{202b}'],
        RLO => &['\u{202e}'],
        PDF => &['\u{202c}'],
        LRI => &['\u{2066}'],
        RLI => &['\u{2067}'],
        FSI => &['\u{2068}'],
        PDI => &['\u{2069}'],
    }
}

/// Encoding variants: 0 shortest characters, 1 longest, 2 and 3 mixed by position.
fn text_of(t: &[C], variant: usize) -> String {
    t.iter()
        .enumerate()
        .map(|(i, c)| {
            let r = reps(*c);
            let k = match variant {
                0 => 0,
                1 => 2,
                2 => i,
                _ => 3 * i + 1,
            };
            r[k % r.len()]
        })
        .collect()
}

fn key_of(t: &[C], d: Option<u8>, variant: usize) -> String {
    let names: Vec<String> = t.iter().map(|c| format!("{c:?}")).collect();
    if t.len() > 2000 {
        return format!("[{} ... {}] {} characters, default={}", names[..6].join(" "), names[t.len() - 6..].join(" "), t.len(), d.map_or("auto".into(), |d| d.to_string()));
    }
    format!(
        "[{}] default={} text={}",
        names.join(" "),
        d.map_or("auto".into(), |d| d.to_string()),
        esc(&text_of(t, variant))
    )
}

const DEF: [Option<u8>; 3] = [None, Some(0), Some(1)];

struct Run {
    starts: Vec<usize>, // byte offset of every char, plus text length
    levels: Vec<u8>,    // per char
    paras: Vec<(usize, usize, u8)>,
    classes: Vec<BidiClass>, // per char
}

/// Run the implementation; per-byte results folded to per-char, checking that all bytes of a
/// character agree.
fn observe(text: &str, d: Option<u8>) -> Result<Run, String> {
    let r = guard(|| {
        let i = BidiInfo::new(text, d.map(|d| Level::new(d).unwrap()));
        let rtl = i.has_rtl();
        (
            i.levels.iter().map(|l| l.number()).collect::<Vec<u8>>(),
            i.paragraphs
                .iter()
                .map(|p| (p.range.start, p.range.end, p.level.number()))
                .collect::<Vec<_>>(),
            i.original_classes,
            i.text == text,
            rtl,
        )
    })?;
    let (lv, paras, cl, same, has_rtl) = r;
    if !same || lv.len() != text.len() || cl.len() != text.len() {
        return Err(format!("levels/classes not one per byte: {} {}", lv.len(), cl.len()));
    }
    let mut starts = vec![];
    let mut levels = vec![];
    let mut classes = vec![];
    for (i, c) in text.char_indices() {
        starts.push(i);
        levels.push(lv[i]);
        classes.push(cl[i]);
        for k in 1..c.len_utf8() {
            if cl[i + k] != cl[i] {
                return Err(format!("bytes of one character have different classes: {cl:?}"));
            }
            if lv[i + k] != lv[i] {
                return Err(format!("bytes of one character have different levels: {lv:?}"));
            }
        }
    }
    starts.push(text.len());
    if has_rtl != levels.iter().any(|l| l % 2 == 1) {
        return Err(format!("has_rtl()={has_rtl} but levels {levels:?}"));
    }
    Ok(Run { starts, levels, paras, classes })
}

fn model_paras(t: &[C], d: Option<u8>) -> Vec<(usize, usize, u8)> {
    paragraphs(t)
        .into_iter()
        .map(|(a, b)| (a, b, para_level(&t[a..b], d)))
        .collect()
}

fn model_levels(t: &[C], d: Option<u8>) -> Vec<u8> {
    let mut v = vec![];
    for (a, b, l) in model_paras(t, d) {
        v.extend(levels(&t[a..b], l, None));
    }
    v
}

fn check_levels(w: &mut W, t: &[C], d: Option<u8>, variant: usize) {
    check_levels_of(w, &text_of(t, variant), t, d, || key_of(t, d, variant))
}

fn check_levels_of(w: &mut W, text: &str, t: &[C], d: Option<u8>, key: impl Fn() -> String) {
    w.state();
    w.steps(t.len());
    match observe(text, d) {
        Err(e) => w.fail(key(), e),
        Ok(r) => {
            let m = model_levels(t, d);
            w.outcome(hash_bytes(&m));
            w.sample(|| format!("{} -> {:?}", key(), m));
            w.eq(&r.levels, &m, key, "levels");
        }
    }
}

fn check_paras(w: &mut W, t: &[C], d: Option<u8>, variant: usize) {
    check_paras_of(w, &text_of(t, variant), t, d, || key_of(t, d, variant))
}

fn check_paras_of(w: &mut W, text: &str, t: &[C], d: Option<u8>, key: impl Fn() -> String) {
    w.state();
    w.steps(t.len());
    match observe(text, d) {
        Err(e) => w.fail(key(), e),
        Ok(r) => {
            let m: Vec<_> = model_paras(t, d)
                .into_iter()
                .map(|(a, b, l)| (r.starts[a], r.starts[b], l))
                .collect();
            w.outcome(m.iter().fold(0, |h, x| (h * 1009 + (x.1 * 8) as u64 + x.2 as u64) % 1000003));
            w.sample(|| format!("{} -> {:?}", key(), m));
            w.eq(&r.paras, &m, &key, "paragraph ranges and levels");
            // The recorded classes: the characters' own, an FSI's either kept or resolved.
            for (pa, pb) in paragraphs(t) {
                for i in pa..pb {
                    let got = r.classes[i];
                    let ok = got == lib_class(t[i])
                        || t[i] == FSI && got == lib_class(fsi_class(&t[pa..pb], i - pa));
                    if !ok {
                        w.fail(key(), format!("class of character {i}: {got:?}"));
                    }
                }
            }
        }
    }
}

fn lib_class(c: C) -> BidiClass {
    use unic_bidi::bidi_class::abbr_names as b;
    match c {
        L => b::L, R => b::R, AL => b::AL, EN => b::EN, ES => b::ES, ET => b::ET, AN => b::AN,
        CS => b::CS, NSM => b::NSM, BN => b::BN, B => b::B, S => b::S, WS => b::WS, ON => b::ON,
        LRE => b::LRE, LRO => b::LRO, RLE => b::RLE, RLO => b::RLO, PDF => b::PDF,
        LRI => b::LRI, RLI => b::RLI, FSI => b::FSI, PDI => b::PDI,
    }
}

/// The class of every scalar value; None for noncharacters, whose class is a known finding of U06.
fn class_map() -> Vec<Option<C>> {
    let t = mc_common::data::table("bidi_class.txt", "L");
    let by: Vec<C> = t
        .values
        .iter()
        .map(|v| *ALL.iter().find(|c| format!("{c:?}") == *v).unwrap_or_else(|| panic!("class {v}")))
        .collect();
    (0..0x110000u32)
        .map(|c| {
            let nonchar = (0xfdd0..=0xfdef).contains(&c) || c & 0xfffe == 0xfffe;
            match char::from_u32(c) {
                Some(ch) if !nonchar => Some(by[t.id(ch) as usize]),
                _ => None,
            }
        })
        .collect()
}

/// Every scalar value in small contexts of every kind.
fn every_character<'f>(
    c: &mut Check<'f>,
    map: &'f [Option<C>],
    contexts: &'static [(&'static [C], &'static [C])],
    defaults: &'static [Option<u8>],
    f: impl Fn(&mut W, &str, &[C], Option<u8>, &str) + Sync + 'f,
) {
    c.family(
        "every-character",
        &format!("every scalar value but noncharacters, between {contexts:?}, default levels {defaults:?}"),
        N_SCALARS,
        move |i, w| {
            let x = scalar_at(i);
            let Some(cx) = map[x as usize] else { return };
            for (pre, post) in contexts {
                let mut t = pre.to_vec();
                t.push(cx);
                t.extend_from_slice(post);
                let mut text = text_of(pre, 0);
                text.push(x);
                text.push_str(&text_of(post, 0));
                for d in defaults {
                    f(w, &text, &t, *d, &text);
                }
            }
        },
    );
}

fn text_key(text: &str, d: Option<u8>) -> String {
    format!("text={} default={}", esc(text), d.map_or("auto".into(), |d| d.to_string()))
}

/// u v^n w: counters and buffers that only long texts reach.
fn pumped<'f>(c: &mut Check<'f>, f: impl Fn(&mut W, &[C], Option<u8>) + Sync + 'f) {
    let ends: &'static [C] = &[L, R, AL, EN, AN, ET, NSM, ON, BN, RLE, RLI, PDI, WS];
    let mid: &'static [C] = &[L, R, EN, ET, AN, CS, NSM, ON, BN, WS, RLE, PDF, RLI, PDI, B, S];
    let lens: &'static [u64] =
        by(&[16, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300], &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]);
    let (ne, nm) = (ends.len() as u64, mid.len() as u64);
    let nv = nm + nm * nm;
    c.family(
        "pumped",
        &format!("u v^n w: u and w over {ends:?}, v every word of one or two over {mid:?}, n of {lens:?}"),
        ne * ne * nv,
        move |i, w| {
            let (u, e, v) = (i % ne, i / ne % ne, i / ne / ne);
            let v: Vec<C> = if v < nm {
                vec![mid[v as usize]]
            } else {
                vec![mid[((v - nm) % nm) as usize], mid[((v - nm) / nm) as usize]]
            };
            for n in lens {
                let mut t = vec![ends[u as usize]];
                for _ in 0..*n as usize / v.len() {
                    t.extend_from_slice(&v);
                }
                t.push(ends[e as usize]);
                f(w, &t, None);
            }
        },
    );
}

/// Runs in the middle of a word, and several runs of one class.
fn runs<'f>(c: &mut Check<'f>, k: u32, f: impl Fn(&mut W, &[C], Option<u8>) + Copy + Sync + 'f) {
    const A: &[C] = &[L, R, AL, EN, ET, CS, AN, NSM, BN, ON, WS, B, RLE, PDF, RLI, FSI, PDI];
    const FILL: &[u8] = &[0, 1, 4, 7, 8, 9, 10, 14];
    let n = A.len() as u64;
    let lens: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    let text = move |v: Vec<u8>| v.iter().map(|k| A[*k as usize]).collect::<Vec<C>>();
    c.family("stretched", &format!("every word of 4 over {A:?} {STRETCHES}, n of {lens:?}"), stretched_size(n), move |i, w| {
        for m in lens {
            f(w, &text(stretched(n, i, *m)), None)
        }
    });
    c.family("spread", &format!("every word of {k} over {A:?} with n of one of {:?} between each two, n of {lens:?}", FILL.iter().map(|k| A[*k as usize]).collect::<Vec<_>>()), spread_size(n, k, FILL.len()), move |i, w| {
        for m in lens {
            f(w, &text(spread(n, k, i, FILL, *m)), None)
        }
    });
}

/// Short words at every offset in a run of one class.
fn aligned<'f>(c: &mut Check<'f>, len: u32, f: impl Fn(&mut W, &[C], usize) + Sync + 'f) {
    const FILL: [C; 4] = [L, R, WS, EN];
    let n = ALL.len() as u64;
    c.family("aligned", &format!("every class string of 1 to {len} {PADDED}: fillers {FILL:?}, encodings of 1 and 2 bytes"), (words_upto(n, len) - 1) * FILL.len() as u64, move |i, w| {
        let mut v = vec![];
        word_at(n, i / FILL.len() as u64 + 1, &mut v);
        let t: Vec<C> = v.iter().map(|k| ALL[*k as usize]).collect();
        padded(FILL[i as usize % FILL.len()], &t, |t| {
            for v in [0, 1] {
                f(w, t, v)
            }
        })
    });
}

/// Texts longer than 2^16 characters, the whole way through: no index may be narrower than a usize.
fn huge<'f>(c: &mut Check<'f>, f: impl Fn(&mut W, &[C], Option<u8>) + Sync + 'f) {
    let mid: &'static [C] = &[L, R, EN, ET, AN, NSM, ON, BN, WS, RLE, PDF, RLI, PDI, B];
    let nm = mid.len() as u64;
    let n = by(65_600usize, 140_000);
    c.family(
        "huge",
        &format!("u v^n w: u and w of L and R, v every word of two over {mid:?}, {n} characters"),
        nm * nm * 2,
        move |i, w| {
            let (x, y, u) = (mid[(i % nm) as usize], mid[(i / nm % nm) as usize], [L, R][(i / nm / nm) as usize]);
            // Isolates that are never closed take quadratic time.
            let open = [x, y].contains(&RLI) && ![x, y].contains(&PDI);
            let mut t = vec![u];
            for _ in 0..if open { 3000 } else { n / 2 } {
                t.extend([x, y]);
            }
            t.push([R, L][(i / nm / nm) as usize]);
            f(w, &t, None);
        },
    );
}

/// Family over all words of length 0..=k over `alpha`, all default levels, some encodings.
fn words<'f>(
    c: &mut Check<'f>,
    name: &str,
    alpha: &'static [C],
    k: u32,
    variants: &'static [usize],
    f: impl Fn(&mut W, &[C], Option<u8>, usize) + Sync + 'f,
) {
    let n = alpha.len() as u64;
    c.family(
        name,
        &format!("every class string of length 0..={k} over {alpha:?}, 3 default levels, encodings {variants:?}"),
        words_upto(n, k),
        move |i, w| {
            let mut word = vec![];
            word_at(n, i, &mut word);
            let t: Vec<C> = word.iter().map(|x| alpha[*x as usize]).collect();
            for d in DEF {
                for v in variants {
                    f(w, &t, d, *v);
                }
            }
        },
    );
}

fn b01() {
    let map = class_map();
    let mut c = Check::new("B01");
    words(&mut c, "all-classes", &ALL, by(4, 5), &[0, 1, 2], check_paras);
    words(
        &mut c,
        "paragraph-alphabet",
        &[L, R, AL, B, LRI, FSI, PDI],
        by(7, 8),
        &[0, 3],
        check_paras,
    );
    words(
        &mut c,
        "isolates-deep",
        &[L, R, B, RLI, PDI],
        by(9, 10),
        &[0],
        check_paras,
    );
    // First strong behind n nested isolates and m PDIs.
    let deep = by(160u64, 400);
    c.family(
        "nesting-depth",
        "n isolate initiators, optional strong, m PDIs, then R/L, for all n, m up to the bound",
        deep * deep,
        move |i, w| {
            let (n, m) = (i / deep, i % deep);
            for inner in [None, Some(L), Some(R)] {
                let mut t = vec![ON];
                t.extend((0..n).map(|k| [LRI, RLI, FSI][k as usize % 3]));
                t.extend(inner);
                t.extend((0..m).map(|_| PDI));
                t.push(AL);
                t.push(B);
                t.push(L);
                for d in DEF {
                    check_paras(w, &t, d, 0);
                }
            }
        },
    );
    every_character(
        &mut c,
        &map,
        &[(&[], &[]), (&[], &[L]), (&[], &[R]), (&[ON, FSI], &[R, PDI, L]), (&[R, B], &[AL, B, L]), (&[RLI], &[PDI, R])],
        &[None, Some(1)],
        |w, text, t, d, k| check_paras_of(w, text, t, d, || text_key(k, d)),
    );
    pumped(&mut c, |w, t, d| check_paras(w, t, d, 0));
    runs(&mut c, 4, |w, t, d| check_paras(w, t, d, 0));
    aligned(&mut c, 3, |w, t, v| check_paras(w, t, None, v));
    huge(&mut c, |w, t, d| check_paras(w, t, d, 0));
    c.assume("Bidi classes of the representative characters are those of Unicode 10.0.0 (checked separately by the character-data check).");
    c.finish()
}

fn b02() {
    let map = class_map();
    let mut c = Check::new("B02");
    words(&mut c, "all-classes", &ALL, 4, &[0, 1, 2, 3], check_levels);
    let k = by(0, 6);
    if k > 0 {
        words(&mut c, "all-classes-deeper", &ALL, 5, &[0, 2], check_levels);
    }
    words(
        &mut c,
        "weak",
        &[L, R, AL, EN, ES, ET, AN, CS, NSM, ON],
        by(6, 7),
        &[0, 3],
        check_levels,
    );
    words(
        &mut c,
        "weak-bn",
        &[R, AL, EN, ET, CS, NSM, BN, PDF],
        by(6, 7),
        &[0, 1],
        check_levels,
    );
    words(
        &mut c,
        "explicit",
        &[L, R, EN, RLE, LRO, RLO, PDF, RLI, FSI, PDI],
        by(6, 7),
        &[0],
        check_levels,
    );
    words(
        &mut c,
        "isolates-removed",
        &[R, AN, ON, BN, RLE, PDF, LRI, PDI],
        by(6, 8),
        &[0],
        check_levels,
    );
    words(
        &mut c,
        "isolates",
        &[L, R, FSI, RLI, PDI, RLE],
        by(8, 9),
        &[0],
        check_levels,
    );
    words(
        &mut c,
        "neutral",
        &[L, R, AN, EN, ON, WS, B, S],
        by(6, 7),
        &[0, 2],
        check_levels,
    );
    // Depth limit and overflow counters: n openers of a periodic pattern, then every short tail.
    let openers: &'static [&'static [C]] = &[
        &[RLE], &[LRE], &[RLI], &[LRI], &[FSI], &[RLO], &[LRO], &[RLE, LRE], &[RLI, LRI],
        &[RLE, LRI], &[RLI, LRE], &[RLO, LRI], &[LRI, RLO], &[RLE, RLI, LRE], &[FSI, RLE],
    ];
    let tail: &'static [C] = &[L, R, RLE, RLI, PDF, PDI];
    let tk = by(4u32, 6);
    let ntail = words_upto(tail.len() as u64, tk);
    let depths: Vec<usize> = (by(58, 0)..by(68, 140))
        .chain(by(120, 0)..by(131, 0))
        .collect();
    let nd = depths.len() as u64;
    c.family(
        "depth-overflow",
        &format!(
            "openers {openers:?} repeated to every depth in {depths:?}, then every tail of length 0..={tk} over {tail:?}, then L R"
        ),
        openers.len() as u64 * nd * ntail,
        move |i, w| {
            let mut word = vec![];
            word_at(tail.len() as u64, i % ntail, &mut word);
            let o = openers[(i / ntail / nd) as usize];
            let n = depths[(i / ntail % nd) as usize];
            let mut t: Vec<C> = (0..n).map(|k| o[k % o.len()]).collect();
            t.extend(word.iter().map(|x| tail[*x as usize]));
            t.extend([EN, R]);
            check_levels(w, &t, None, 0);
            check_levels(w, &t, Some(1), 0);
        },
    );
    // Unwinding: n openers, closers of a pattern, strong character after each closer.
    let closers: &'static [&'static [C]] =
        &[&[PDF], &[PDI], &[PDF, PDI], &[PDI, PDF], &[PDF, PDF, PDI]];
    let span = by(140u64, 300);
    c.family(
        "depth-unwind",
        &format!("openers repeated n times, then n+3 closers of each pattern {closers:?}, a strong char after each, n up to {span}"),
        openers.len() as u64 * closers.len() as u64 * span,
        move |i, w| {
            let n = i % span;
            let o = openers[(i / span) as usize % openers.len()];
            let cl = closers[(i / span) as usize / openers.len()];
            let mut t = vec![];
            for k in 0..n as usize {
                t.push(o[k % o.len()]);
                if k % 3 == 0 {
                    t.push(EN);
                }
            }
            for k in 0..n as usize + 3 {
                t.push(cl[k % cl.len()]);
                t.push([L, R, AN][k % 3]);
            }
            check_levels(w, &t, None, 0);
            check_levels(w, &t, Some(1), 2);
        },
    );
    // Long homogeneous stretches between interesting ends (state that only grows).
    let ends: &'static [C] = &[L, R, AL, EN, AN, ET, CS, ES, NSM, ON, BN, RLI, PDI];
    let ne = ends.len() as u64;
    let maxlen = by(12u64, 40);
    c.family(
        "long-runs",
        "x y^n z u for every x, y, z, u and every n up to the bound",
        ne * ne * ne * ne * maxlen,
        move |i, w| {
            let n = i % maxlen;
            let e = i / maxlen;
            let g = |k: u32| ends[(e / ne.pow(k) % ne) as usize];
            let mut t = vec![g(0)];
            t.extend((0..n).map(|_| g(1)));
            t.push(g(2));
            t.push(g(3));
            check_levels(w, &t, None, 0);
            check_levels(w, &t, Some(1), 3);
        },
    );
    every_character(
        &mut c,
        &map,
        &[
            (&[], &[]),
            (&[L], &[R]),
            (&[R], &[L]),
            (&[AL], &[EN]),
            (&[EN], &[EN, R]),
            (&[R, NSM], &[ET, EN]),
            (&[RLE, EN], &[PDF, L]),
            (&[LRI], &[R, PDI, AL]),
        ],
        &[None, Some(0), Some(1)],
        |w, text, t, d, k| check_levels_of(w, text, t, d, || text_key(k, d)),
    );
    pumped(&mut c, |w, t, d| check_levels(w, t, d, 0));
    runs(&mut c, 4, |w, t, d| check_levels(w, t, d, 0));
    aligned(&mut c, 3, |w, t, v| check_levels(w, t, None, v));
    huge(&mut c, |w, t, d| check_levels(w, t, d, 0));
    // State carried from one paragraph to the next.
    let pa: &'static [C] = &[L, R, AL, EN, ET, NSM, ON, RLE, RLI, PDI];
    let pk = by(2u32, 3);
    let np = words_upto(pa.len() as u64, pk);
    c.family(
        "paragraph-pairs",
        &format!("every two paragraphs of up to {pk} over {pa:?}, and a third"),
        np * np,
        move |i, w| {
            let (mut x, mut y) = (vec![], vec![]);
            word_at(pa.len() as u64, i % np, &mut x);
            word_at(pa.len() as u64, i / np, &mut y);
            let mut t: Vec<C> = x.iter().map(|k| pa[*k as usize]).collect();
            t.push(B);
            t.extend(y.iter().map(|k| pa[*k as usize]));
            t.push(B);
            t.extend([ET, EN, R]);
            for d in DEF {
                check_levels(w, &t, d, 0);
                check_levels(w, &t, d, 2);
            }
        },
    );
    // N0 (bracket pairs): the specific inputs recorded as a known finding.
    let probes: &'static [(&'static str, u8)] = &[
        ("\u{5d0}(\u{5d0})a", 0),
        ("a(a)\u{5d0}", 1),
    ];
    c.family(
        "n0-probe",
        "fixed texts with one bracket pair, against the model with rule N0",
        probes.len() as u64,
        move |i, w| {
            let (s, d) = probes[i as usize];
            let t: Vec<C> = s
                .chars()
                .map(|c| match c {
                    'a' => L,
                    '\u{5d0}' => R,
                    _ => ON,
                })
                .collect();
            let br: Vec<_> = s
                .chars()
                .map(|c| match c {
                    '(' => Some((true, 0)),
                    ')' => Some((false, 0)),
                    _ => None,
                })
                .collect();
            let m = levels(&t, d, Some(&br));
            w.state();
            w.steps(t.len());
            match observe(s, Some(d)) {
                Err(e) => w.fail(format!("N0 {} default={d}", esc(s)), e),
                Ok(r) => {
                    w.eq(&r.levels, &m, || format!("N0 {} default={d}", esc(s)), "levels");
                }
            }
        },
    );
    c.assume("Rule N0 (paired brackets) is not implemented by the library: recorded as a known finding; all other families use no bracket characters.");
    c.assume("Levels of characters removed by X9 are compared with what the library documents: the level of the preceding character.");
    c.finish()
}

fn check_lines(w: &mut W, t: &[C], d: Option<u8>, variant: usize) {
    check_lines_of(w, &text_of(t, variant), t, d, || key_of(t, d, variant))
}

fn check_lines_of(w: &mut W, text: &str, t: &[C], d: Option<u8>, tkey: impl Fn() -> String) {
    let all: Vec<usize> = (0..=t.len()).collect();
    check_lines_at(w, text, t, d, &all, tkey)
}

/// Every line between two of the cuts, within one paragraph.
fn check_lines_at(w: &mut W, text: &str, t: &[C], d: Option<u8>, cuts: &[usize], tkey: impl Fn() -> String) {
    let mut starts: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    starts.push(text.len());
    let info = match guard(|| BidiInfo::new(text, d.map(|d| Level::new(d).unwrap()))) {
        Ok(i) => i,
        Err(e) => return w.fail(tkey(), e),
    };
    // The line stage is judged on the levels the library resolved (checked on their own).
    let resolved: Vec<u8> = starts[..t.len()].iter().map(|i| info.levels[*i].number()).collect();
    for p in &info.paragraphs {
        let (pa, pb) = (
            starts.binary_search(&p.range.start).unwrap(),
            starts.binary_search(&p.range.end).unwrap(),
        );
        for &a in cuts.iter().filter(|a| (pa..pb).contains(*a)) {
            for &b in cuts.iter().filter(|b| (a + 1..=pb).contains(*b)) {
                w.state();
                w.steps(b - a);
                let line = starts[a]..starts[b];
                let key = || format!("{} line={line:?}", tkey());
                let r = guard(|| {
                    let (lv, runs) = info.visual_runs(p, line.clone());
                    let s = info.reorder_line(p, line.clone()).into_owned();
                    let rl = info.reordered_levels(p, line.clone());
                    let rc = info.reordered_levels_per_char(p, line.clone());
                    (lv, runs, s, rl, rc)
                });
                let (lv, runs, s, rl, rc) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        w.fail(key(), e);
                        continue;
                    }
                };
                let want = l1(t, &resolved, p.level.number(), a, b);
                if lv.len() != text.len() || rl != lv || rc.len() != t.len() {
                    w.fail(key(), "level vectors disagree in shape");
                    continue;
                }
                // L1 on kept characters; everything outside the line unchanged.
                let mut ok = true;
                for i in 0..t.len() {
                    let got = lv[starts[i]].number();
                    if lv[starts[i]..starts[i + 1]].iter().any(|l| l.number() != got)
                        || rc[i].number() != got
                    {
                        ok = false;
                    }
                    if i < a || i >= b {
                        ok &= got == resolved[i];
                    } else if !removed(t[i]) {
                        ok &= got == want[i - a];
                    }
                }
                if !w.check(ok, key, "L1 levels") {
                    let g: Vec<u8> = rc.iter().map(|l| l.number()).collect();
                    w.fail(key(), format!("L1: implementation {g:?} model {want:?} for chars {a}..{b} of resolved {resolved:?}"));
                    continue;
                }
                // L2: visual order of the kept characters.
                let kept: Vec<usize> = (a..b).filter(|i| !removed(t[*i])).collect();
                let klv: Vec<u8> = kept.iter().map(|i| want[*i - a]).collect();
                let model: Vec<usize> = l2(&klv).into_iter().map(|k| kept[k]).collect();
                // order of characters from the runs
                let mut got: Vec<usize> = vec![];
                let mut bad = false;
                let mut covered = 0;
                for r in &runs {
                    let (ra, rb) = match (starts.binary_search(&r.start), starts.binary_search(&r.end)) {
                        (Ok(x), Ok(y)) if x < y => (x, y),
                        _ => {
                            bad = true;
                            break;
                        }
                    };
                    covered += r.end - r.start;
                    let l = lv[r.start].number();
                    bad |= (ra..rb).any(|i| lv[starts[i]].number() != l);
                    bad |= ra > a && lv[starts[ra - 1]].number() == l;
                    bad |= rb < b && lv[starts[rb]].number() == l;
                    if l % 2 == 1 {
                        got.extend((ra..rb).rev());
                    } else {
                        got.extend(ra..rb);
                    }
                }
                let mut sorted = got.clone();
                sorted.sort();
                bad |= covered != line.len() || sorted != (a..b).collect::<Vec<_>>();
                if bad {
                    w.fail(key(), format!("runs {runs:?} do not partition the line into maximal level runs"));
                    continue;
                }
                let chars: Vec<char> = text.chars().collect();
                let vis: String = got.iter().map(|i| chars[*i]).collect();
                w.eq(&s, &vis, key, "reordered line is the runs in order, odd ones reversed");
                let gk: Vec<usize> = got.into_iter().filter(|i| !removed(t[*i])).collect();
                w.outcome(gk.iter().fold(7, |h, x| (h * 31 + *x as u64) % 100000007));
                w.sample(|| format!("{} -> order {:?}", key(), model));
                w.eq(&gk, &model, key, "visual order of the line's characters");
            }
        }
    }
}

/// A class string whose resolved levels are exactly the wanted ones (for strong characters).
fn text_with_levels(lv: &[u8], filler: &[C]) -> Vec<C> {
    let mut t = vec![];
    let mut cur: u8 = 0;
    for (k, l) in lv.iter().enumerate() {
        // Close everything, then open to the level: one override per level, alternating.
        while cur > 0 {
            t.push(PDF);
            cur -= 1;
        }
        while cur < *l {
            t.push(if cur % 2 == 0 { RLO } else { LRO });
            cur += 1;
        }
        t.push(filler[k % filler.len()]);
    }
    t
}

fn b03() {
    let map = class_map();
    let mut c = Check::new("B03");
    words(&mut c, "all-classes", &ALL, by(3, 4), &[0, 2], check_lines);
    words(
        &mut c,
        "line-alphabet",
        &[L, R, AN, WS, S, BN, RLI, PDI],
        by(5, 6),
        &[0, 3],
        check_lines,
    );
    words(&mut c, "plain", &[L, R, EN, WS], by(7, 8), &[2], check_lines);
    words(&mut c, "paragraphs", &[L, R, WS, B], by(6, 8), &[0], check_lines);
    let n = by(6u32, 7);
    let top = by(5u64, 6);
    c.family(
        "level-patterns",
        &format!("every sequence of {n} embedding levels in 0..{top}, realised with overrides, every line"),
        top.pow(n),
        move |i, w| {
            let mut word = vec![];
            word_k(top, n, i, &mut word);
            for filler in [&[L][..], &[R, WS][..]] {
                let t = text_with_levels(&word, filler);
                check_whole_lines(w, &t);
            }
        },
    );
    let fam_top = 63u64;
    c.family(
        "deep-levels",
        "level patterns l, h, l' with deep h (up to 125) and neighbours",
        fam_top * 6 * 6,
        move |i, w| {
            let h = (i / 36 * 2 + 1).min(125) as u8;
            let a = (i / 6 % 6) as u8;
            let b = (i % 6) as u8;
            let t = text_with_levels(&[a, h, h, b, h - 1, a], &[L, EN]);
            check_whole_lines(w, &t);
        },
    );
    every_character(
        &mut c,
        &map,
        &[(&[], &[]), (&[R], &[]), (&[R], &[L]), (&[L, R], &[WS]), (&[R, WS], &[S])],
        &[None, Some(1)],
        |w, text, t, d, k| check_lines_of(w, text, t, d, || text_key(k, d)),
    );
    let ends: &'static [C] = &[L, R, AN, WS, S, BN, RLI, PDI];
    let ne = ends.len() as u64;
    let lens: &'static [usize] = by(&[31, 64, 127, 128, 255, 256, 300], &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600]);
    c.family(
        "pumped",
        &format!("u (x y)^n w over {ends:?}, n of {lens:?}, the whole text and its halves as lines"),
        ne * ne * ne * ne,
        move |i, w| {
            let g = |k: u32| ends[(i / ne.pow(k) % ne) as usize];
            for n in lens {
                let mut t = vec![g(0)];
                for _ in 0..n / 2 {
                    t.extend([g(1), g(2)]);
                }
                t.push(g(3));
                let cuts = [0, t.len() / 2, t.len()];
                check_lines_at(w, &text_of(&t, 0), &t, None, &cuts, || key_of(&t, None, 0));
            }
        },
    );
    // Cut where the runs end, so that lines begin and end everywhere in the word.
    let at_changes = |w: &mut W, t: &[C], v: usize| {
        let mut cuts = vec![0];
        for k in 1..t.len() {
            if t[k] != t[k - 1] {
                cuts.push(k);
            }
        }
        cuts.push(t.len());
        check_lines_at(w, &text_of(t, v), t, None, &cuts, || key_of(t, None, v))
    };
    runs(&mut c, 3, move |w, t, _| at_changes(w, t, 0));
    aligned(&mut c, by(2, 3), at_changes);
    let n = by(65_600usize, 140_000);
    c.family("huge", &format!("u (x y)^n w over {ends:?}, u and w of L and R, {n} characters, the whole text and its halves as lines"), ne * ne * 4, move |i, w| {
        let g = |k: u32| ends[(i / ne.pow(k) % ne) as usize];
        let mut t = vec![[L, R][(i / ne / ne % 2) as usize]];
        for _ in 0..n / 2 {
            t.extend([g(0), g(1)]);
        }
        t.push([L, R][(i / ne / ne / 2) as usize]);
        let cuts = [0, t.len() / 2, t.len()];
        check_lines_at(w, &text_of(&t, 0), &t, None, &cuts, || key_of(&t, None, 0));
    });
    c.assume("Lines are non-empty sub-ranges of one paragraph on character boundaries.");
    c.assume("The resolved levels fed to the line stage are the library's own; they are decided by the level-resolution check.");
    c.finish()
}

/// Only a few line ranges: the whole text, and the suffix/prefix at each kept character.
fn check_whole_lines(w: &mut W, t: &[C]) {
    let keep: Vec<usize> = (0..t.len()).filter(|i| !removed(t[*i])).collect();
    let text = text_of(t, 0);
    let mut starts: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    starts.push(text.len());
    let info = BidiInfo::new(&text, None);
    let p = match info.paragraphs.first() {
        Some(p) => p,
        None => return,
    };
    let resolved: Vec<u8> = starts[..t.len()].iter().map(|i| info.levels[*i].number()).collect();
    for a in &keep {
        for b in &keep {
            if b < a {
                continue;
            }
            let (a, b) = (*a, *b + 1);
            w.state();
            w.steps(b - a);
            let line = starts[a]..starts[b];
            let key = || format!("{} line={line:?}", key_of(t, None, 0));
            let r = guard(|| info.reorder_line(p, line.clone()).into_owned());
            let s = match r {
                Ok(s) => s,
                Err(e) => {
                    w.fail(key(), e);
                    continue;
                }
            };
            let want = l1(t, &resolved, p.level.number(), a, b);
            let kept: Vec<usize> = (a..b).filter(|i| !removed(t[*i])).collect();
            let klv: Vec<u8> = kept.iter().map(|i| want[*i - a]).collect();
            let order = l2(&klv);
            // identify characters by (class, occurrence) is ambiguous; compare run structure instead
            let (lv, runs) = info.visual_runs(p, line.clone());
            let mut got = vec![];
            for r in &runs {
                let x: Vec<usize> = (a..b).filter(|i| r.contains(&starts[*i])).collect();
                if lv[r.start].is_rtl() {
                    got.extend(x.into_iter().rev());
                } else {
                    got.extend(x);
                }
            }
            let chars: Vec<char> = text.chars().collect();
            let vis: String = got.iter().map(|i| chars[*i]).collect();
            w.eq(&s, &vis, key, "reordered line is the runs in order, odd ones reversed");
            let gk: Vec<usize> = got.into_iter().filter(|i| !removed(t[*i])).collect();
            let model: Vec<usize> = order.into_iter().map(|k| kept[k]).collect();
            w.outcome(gk.iter().fold(7, |h, x| (h * 31 + *x as u64) % 100000007));
            w.eq(&gk, &model, key, "visual order of the line's characters");
        }
    }
}

fn b04() {
    let mut c = Check::new("B04");
    // Explicit-state exploration of the Level type: BFS over real values from every way to make
    // one, every operation with every argument.
    c.family("reachable-levels", "breadth-first search over Level values: every constructor, every operation, every u8 argument", 1, |_, w| {
        let mut seen = vec![false; 256];
        let mut queue = std::collections::VecDeque::new();
        let mut push = |l: Level, from: String, w: &mut W, q: &mut std::collections::VecDeque<Level>| {
            let n = l.number();
            if n > 126 {
                w.fail(from, format!("reached invalid level {n}"));
                return;
            }
            if !seen[n as usize] {
                seen[n as usize] = true;
                w.state();
                q.push_back(l);
            }
        };
        let res = |r: Result<Level, unic_bidi::level::Error>| r.ok().map(|l| l.number());
        for n in 0..=255u8 {
            w.steps(4);
            let want = if n <= 126 { Some(n) } else { None };
            w.eq(&guard(|| res(Level::new(n))), &Ok(want), || format!("new({n})"), "new");
            let wx = if n <= 125 { Some(n) } else { None };
            w.eq(&guard(|| res(Level::new_explicit(n))), &Ok(wx), || format!("new_explicit({n})"), "new_explicit");
            if let Ok(l) = Level::new(n) {
                push(l, format!("new({n})"), w, &mut queue);
            }
            let f = guard(|| Level::from(n).number()).ok();
            w.eq(&f, &want, || format!("from({n})"), "conversion from u8 (fails when out of range)");
            let v = guard(|| Level::vec(&[0, n]).iter().map(|l| l.number()).collect::<Vec<_>>()).ok();
            w.eq(&v, &want.map(|n| vec![0, n]), || format!("vec([0,{n}])"), "vec");
            // serde
            let s: Result<Level, _> = serde_json::from_str(&n.to_string());
            w.eq(&s.as_ref().ok().map(|l| l.number()), &want, || format!("deserialize({n})"), "deserialized level is valid");
            if let Ok(l) = s {
                push(l, format!("deserialize({n})"), w, &mut queue);
            }
        }
        for bad in ["-1", "256", "null", "\"1\"", "1.5", "[]", "{}"] {
            let s: Result<Level, _> = serde_json::from_str(bad);
            w.check(s.is_err(), || format!("deserialize {bad}"), "deserialize rejects");
        }
        w.eq(&(unic_bidi::level::MAX_EXPLICIT_DEPTH, unic_bidi::level::MAX_IMPLICIT_DEPTH), &(125, 126), || "constants".into(), "depth bounds");
        for (l, n) in [(Level::ltr(), 0), (Level::rtl(), 1), (unic_bidi::level::LTR_LEVEL, 0), (unic_bidi::level::RTL_LEVEL, 1)] {
            w.eq(&l.number(), &n, || format!("constant {n}"), "constant");
            push(l, "constant".into(), w, &mut queue);
        }
        w.eq(&Level::max_explicit_depth(), &125, || "max_explicit_depth".into(), "depth");
        w.eq(&Level::max_implicit_depth(), &126, || "max_implicit_depth".into(), "depth");
        while let Some(l) = queue.pop_front() {
            let n = l.number();
            w.outcome(n as u64);
            let k = |op: &str| format!("level {n}: {op}");
            w.eq(&(l.is_ltr(), l.is_rtl()), &(n % 2 == 0, n % 2 == 1), || k("direction"), "direction");
            w.eq(&format!("{}", l.bidi_class()), &if n % 2 == 1 { "Right-to-Left".to_string() } else { "Left-to-Right".to_string() }, || k("bidi_class"), "bidi_class");
            w.eq(&l.to_string(), &n.to_string(), || k("to_string"), "to_string");
            let u: u8 = l.into();
            w.eq(&u, &n, || k("into u8"), "into u8");
            w.eq(&serde_json::to_string(&l).unwrap(), &n.to_string(), || k("serialize"), "serialize");
            let next_odd = (n + 1..).find(|x| x % 2 == 1).unwrap();
            let next_even = (n + 1..).find(|x| x % 2 == 0).unwrap();
            let lim = |x: u8, m: u8| if x <= m { Some(x) } else { None };
            w.eq(&guard(|| res(l.new_explicit_next_rtl())), &Ok(lim(next_odd, 125)), || k("next_rtl"), "next odd level");
            w.eq(&guard(|| res(l.new_explicit_next_ltr())), &Ok(lim(next_even, 125)), || k("next_ltr"), "next even level");
            let low = if n % 2 == 1 { n } else { n + 1 };
            w.eq(&guard(|| res(l.new_lowest_ge_rtl())), &Ok(lim(low, 126)), || k("lowest_ge_rtl"), "lowest odd level >= this");
            for r in [l.new_explicit_next_rtl(), l.new_explicit_next_ltr(), l.new_lowest_ge_rtl()].into_iter().flatten() {
                push(r, k("next"), w, &mut queue);
            }
            for a in 0..=255u8 {
                w.steps(3);
                for (op, f, max) in [
                    ("raise", Level::raise as fn(&mut Level, u8) -> Result<(), unic_bidi::level::Error>, 126u16),
                    ("raise_explicit", Level::raise_explicit, 125),
                ] {
                    let mut m = l;
                    let r = guard(|| f(&mut m, a).is_ok());
                    let sum = n as u16 + a as u16;
                    let want = if sum <= max { (Ok(true), sum as u8) } else { (Ok(false), n) };
                    w.eq(&(r, m.number()), &want, || k(&format!("{op}({a})")), "result and new value (unchanged on failure)");
                    push(m, k(&format!("{op}({a})")), w, &mut queue);
                }
                let mut m = l;
                let r = guard(|| m.lower(a).is_ok());
                let want = if a <= n { (Ok(true), n - a) } else { (Ok(false), n) };
                w.eq(&(r, m.number()), &want, || k(&format!("lower({a})")), "result and new value (unchanged on failure)");
                push(m, k(&format!("lower({a})")), w, &mut queue);
                if let Ok(o) = Level::new(a) {
                    w.eq(&(l.cmp(&o), l == o), &(n.cmp(&a), n == a), || k(&format!("cmp {a}")), "ordering");
                    w.eq(&unic_bidi::level::has_rtl(&[Level::ltr(), l, o]), &(n % 2 == 1 || a % 2 == 1), || k(&format!("has_rtl {a}")), "has_rtl");
                }
                let s = a.to_string();
                w.eq(&(l == s.as_str(), l == s.clone()), &(n == a, n == a), || k(&format!("eq str {a}")), "comparison with a string");
            }
            w.eq(&(l == "x"), &true, || k("eq x"), "x matches every level");
            w.eq(&(l == "", l == "y"), &(false, false), || k("eq other"), "other strings do not match");
        }
        w.sample(|| format!("reached {} level values", seen.iter().filter(|x| **x).count()));
        w.eq(&seen.iter().filter(|x| **x).count(), &127, || "reachable set".into(), "reachable level values");
        w.eq(&unic_bidi::level::has_rtl(&[]), &false, || "has_rtl([])".into(), "has_rtl");
    });
    c.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("B01") => b01(),
        Some("B02") => b02(),
        Some("B03") => b03(),
        Some("B04") => b04(),
        x => panic!("unknown property {x:?}"),
    }
}
