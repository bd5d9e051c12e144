//! N01-N03: normalization. Also `--marks`: combining marks as built without the category tables (for U07).
use mc_common::nf::*;
use mc_common::util::*;
use mc_common::*;
use unic_normal::StrNormalForm;
use unic_ucd_normal as un;

fn real(f: usize, s: &str) -> Vec<char> {
    match f {
        0 => s.nfd().collect(),
        1 => s.nfc().collect(),
        2 => s.nfkd().collect(),
        _ => s.nfkc().collect(),
    }
}

fn forms(nf: &Nf, s: &[char], w: &mut W) {
    let text: String = s.iter().collect();
    for f in 0..4 {
        w.state();
        w.steps(s.len());
        let want = nf.form(f, s);
        let got = guard(|| real(f, &text));
        let k = || format!("{} {}", FORMS[f], esc(&text));
        match got {
            Ok(g) => {
                if g != want {
                    w.fail(k(), format!("implementation {}, model {}", esc_chars(&g), esc_chars(&want)));
                }
            }
            Err(e) => w.fail(k(), format!("panic: {e}")),
        }
        let mut h = Fnv::default();
        for c in &want {
            h.u64(*c as u64);
        }
        w.outcome(h.0);
        w.trace();
    }
}

fn n01(c: &mut Check) {
    let nf = Nf::load();
    c.assume("reference decompositions, classes and compositions: x/text 10.0.0 tables (refdata)");
    let n = ALPHABET.len() as u64;
    let len = by(5, 6);
    c.family("words", "every word over 26 characters of distinct role to length 5 (thorough 6)", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        forms(nf, &letters(&v, ALPHABET), w)
    });
    // Longer words over the characters that interact most.
    const CORE: &[char] = &['a', '\u{301}', '\u{327}', '\u{323}', '\u{1e09}', '\u{1100}', '\u{1161}', '\u{11a8}', '\u{ac00}', '\u{344}'];
    let len2 = by(7, 8);
    c.family("core words", "every word over 10 interacting characters to length 7 (thorough 8)", words_upto(10, len2), move |i, w| {
        let mut v = vec![];
        word_at(10, i, &mut v);
        forms(nf, &letters(&v, CORE), w)
    });
    const MARKS: &[char] = &['\u{301}', '\u{300}', '\u{327}', '\u{323}', '\u{334}', '\u{345}'];
    let len3 = by(7, 9);
    c.family("mark runs", "every run of up to 7 (thorough 9) marks of 5 classes after a, between two letters", words_upto(6, len3), move |i, w| {
        let mut v = vec![];
        word_at(6, i, &mut v);
        let mut s = vec!['a'];
        s.extend(letters(&v, MARKS));
        s.push('e');
        forms(nf, &s, w)
    });
    c.family("long mark runs", "runs of n marks in rising, falling, equal and alternating class order, n to 300", 300 * 4, move |i, w| {
        let n = i as usize / 4 + 1;
        let m = ['\u{334}', '\u{327}', '\u{323}', '\u{301}'];
        let mut s = vec!['a'];
        for k in 0..n {
            s.push(match i % 4 {
                0 => m[k * 4 / n],
                1 => m[3 - k * 4 / n],
                2 => m[3],
                _ => m[k % 4],
            });
        }
        s.push('\u{301}');
        s.push('b');
        forms(nf, &s, w)
    });
    const P: &[char] = &['a', '\u{e9}', '\u{301}', '\u{323}', '\u{1e69}', '\u{1100}', '\u{1161}', '\u{11a8}', '\u{ac00}', '\u{344}', '\u{fdfa}', '\u{1d15e}', '\u{9c7}', '\u{9be}'];
    let n = P.len() as u64;
    let nv = n + n * n;
    let lens: &'static [usize] = by(&[17, 33, 64, 129, 258], &[16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 258, 300, 1000]);
    c.family("pumped", &format!("u v^n w: u and w over 14 characters with a role, v every word of one or two, n of {lens:?}"), n * n * nv, move |i, w| {
        let (u, e, v) = (i % n, i / n % n, i / n / n);
        let v = if v < n { vec![P[v as usize]] } else { vec![P[((v - n) % n) as usize], P[((v - n) / n) as usize]] };
        for len in lens {
            let mut s = vec![P[u as usize]];
            for _ in 0..len / v.len() {
                s.extend(&v);
            }
            s.push(P[e as usize]);
            forms(nf, &s, w)
        }
    });
    let all = |v: Vec<u8>| v.iter().map(|k| P[*k as usize]).collect::<Vec<char>>();
    let lens2: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    c.family("stretched", &format!("every word of 4 over 14 characters {STRETCHES}, n of {lens2:?}"), stretched_size(n), move |i, w| {
        for m in lens2 {
            forms(nf, &all(stretched(n, i, *m)), w)
        }
    });
    c.family("spread", &format!("every word of 3 over 14 characters with n of one between each two, n of {lens2:?}"), spread_size(n, 3, P.len()), move |i, w| {
        for m in lens2 {
            forms(nf, &all(spread(n, 3, i, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], *m)), w)
        }
    });
    let long = by(65_600usize, 140_000);
    c.family("huge", &format!("u v^n w of {long} characters (3,000 of two different marks, which take quadratic time): u and w of 2, v every word of one or two over 14 characters"), 4 * nv, move |i, w| {
        let v = i / 4;
        let v = if v < n { vec![P[v as usize]] } else { vec![P[((v - n) % n) as usize], P[((v - n) / n) as usize]] };
        let mark = |c: &char| matches!(*c, '\u{301}' | '\u{323}' | '\u{344}');
        let long = if v.len() == 2 && v[0] != v[1] && v.iter().all(mark) { 3000 } else { long };
        let mut s = vec![['a', '\u{ac00}'][(i % 2) as usize]];
        for _ in 0..long / v.len() {
            s.extend(&v);
        }
        s.push(['\u{301}', '\u{1161}'][(i / 2 % 2) as usize]);
        forms(nf, &s, w)
    });
    const F: &[char] = &['a', '\u{e9}', '\u{4e2d}', '\u{1f600}'];
    let m = ALPHABET.len() as u64;
    let len = by(2, 3);
    c.family("aligned", &format!("every word of 1 or 2 (thorough 3) over 26 characters {PADDED}: fillers {F:?}"), (words_upto(m, len) - 1) * F.len() as u64, move |i, w| {
        let mut v = vec![];
        word_at(m, i / F.len() as u64 + 1, &mut v);
        padded(F[i as usize % F.len()], &letters(&v, ALPHABET), |s| forms(nf, s, w))
    });
    c.family("contexts", "every scalar value alone, and between starters, marks and Hangul jamo", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        for s in [
            &[c][..],
            &['a', c],
            &[c, '\u{301}'],
            &['a', '\u{323}', c, '\u{327}'],
            &['\u{ac00}', c, '\u{11a8}'],
            &['\u{1100}', c, '\u{1161}'],
        ] {
            forms(nf, s, w)
        }
    });
    // Every pair of reordered characters, and every primary composite with a mark of every class in between.
    let marks: Vec<char> = (0..N_SCALARS).map(scalar_at).filter(|c| nf.ccc(*c) != 0).collect();
    let marks: &'static [char] = Box::leak(marks.into_boxed_slice());
    let m = marks.len() as u64;
    c.family("mark pairs", "every pair of characters with a non-zero class, after a starter", m * m, move |i, w| {
        forms(nf, &['o', marks[(i / m) as usize], marks[(i % m) as usize]], w)
    });
    let mut of_class: Vec<char> = vec!['b', '\u{1161}'];
    for k in 1..=255 {
        of_class.extend(marks.iter().find(|c| nf.ccc(**c) == k));
    }
    let of_class: &'static [char] = Box::leak(of_class.into_boxed_slice());
    let mut pairs: Vec<(char, char)> = nf.pairs().keys().copied().collect();
    pairs.sort();
    let pairs: &'static [(char, char)] = Box::leak(pairs.into_boxed_slice());
    let n = of_class.len() as u64;
    let mut firsts: Vec<char> = pairs.iter().map(|p| p.0).collect();
    firsts.dedup();
    let mut seconds: Vec<char> = pairs.iter().map(|p| p.1).collect();
    seconds.sort();
    seconds.dedup();
    let (firsts, seconds): (&'static [char], &'static [char]) = (Box::leak(firsts.into_boxed_slice()), Box::leak(seconds.into_boxed_slice()));
    let k = seconds.len() as u64;
    c.family("chains", "every character that is first in some composition, followed by every two that are second in one", firsts.len() as u64 * k * k, move |i, w| {
        forms(nf, &[firsts[(i / k / k) as usize], seconds[(i / k % k) as usize], seconds[(i % k) as usize]], w)
    });
    c.family("blocking", "every pair with a primary composite, with a character of every class (and starters) between, twice, and after", pairs.len() as u64 * n, move |i, w| {
        let (a, b) = pairs[(i / n) as usize];
        let x = of_class[(i % n) as usize];
        forms(nf, &[a, b, x], w);
        forms(nf, &[a, x, b], w);
        forms(nf, &[a, x, b, b], w);
        forms(nf, &[x, a, b], w);
        forms(nf, &[a, x, x, b], w);
    });
}

fn n02(c: &mut Check) {
    let n = ALPHABET.len() as u64;
    let len = by(3, 4);
    let relations = |s: String, w: &mut W| {
        let k = || esc(&s);
        let r: Vec<String> = (0..4).map(|f| real(f, &s).into_iter().collect()).collect();
        w.state();
        w.steps(s.len());
        // rows: applied first; columns: applied second -> equal to this form of the text
        const AGREE: [[usize; 4]; 4] = [[0, 1, 2, 3], [0, 1, 2, 3], [2, 3, 2, 3], [2, 3, 2, 3]];
        for f in 0..4 {
            for g in 0..4 {
                let x: String = real(g, &r[f]).into_iter().collect();
                if x != r[AGREE[f][g]] {
                    w.fail(k(), format!("{} of {} is {}, not the {}", FORMS[g], FORMS[f], esc(&x), FORMS[AGREE[f][g]]));
                }
                w.trace();
            }
        }
        let it = [
            s.chars().nfd().collect::<String>(),
            s.chars().nfc().collect(),
            s.chars().nfkd().collect(),
            s.chars().nfkc().collect(),
        ];
        w.eq(&it.to_vec(), &r, k, "normalized through the character iterator");
        let d = [s.nfd().to_string(), s.nfc().to_string(), s.nfkd().to_string(), s.nfkc().to_string()];
        w.eq(&d.to_vec(), &r, k, "Display");
        // Whatever is true of a text is true of it behind an inert starter.
        let p = format!("\u{100000}{s}");
        for f in 0..4 {
            let x: String = real(f, &p).into_iter().collect();
            w.eq(&x, &format!("\u{100000}{}", r[f]), || format!("{} {}", FORMS[f], esc(&p)), "after an inert starter");
            let p = format!("{s}\u{100000}");
            let x: String = real(f, &p).into_iter().collect();
            w.eq(&x, &format!("{}\u{100000}", r[f]), || format!("{} {}", FORMS[f], esc(&p)), "before an inert starter");
        }
    };
    c.family("relations", "every word over 26 characters to length 4 (thorough 5): idempotence, agreement between forms, str and iterator", words_upto(n, len + 1), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        relations(letters(&v, ALPHABET).into_iter().collect(), w)
    });
    const P: &[char] = &['a', '\u{e9}', '\u{301}', '\u{323}', '\u{1161}', '\u{ac00}', '\u{fb01}'];
    let m = P.len() as u64;
    let lens: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    c.family("stretched", &format!("every word of 4 over 7 characters {STRETCHES}, n of {lens:?}: the same, and the iterators at 6 points: clone, format, bounds, resuming after the end"), stretched_size(m), move |i, w| {
        for len in lens {
            let s: String = stretched(m, i, *len).into_iter().map(|j| P[j as usize]).collect();
            macro_rules! run {
                ($f:expr, $it:expr) => {{
                    let all = real($f, &s);
                    for k in [0, 1, 2, len / 2, *len, len + 2] {
                        if k > all.len() {
                            continue;
                        }
                        let mut it = $it;
                        let key = || format!("{} {} after {k}", FORMS[$f], esc(&s));
                        w.state();
                        w.steps(1);
                        w.check((0..k).all(|j| it.next() == Some(all[j])), key, "stepping");
                        let rest: String = all[k..].iter().collect();
                        let (lo, hi) = it.size_hint();
                        w.check(lo <= all.len() - k && hi.map_or(true, |h| h >= all.len() - k), key, "size_hint does not bound what remains");
                        let mut cl = it.clone();
                        let before = format!("{:?}", it);
                        w.eq(&it.to_string(), &rest, key, "Display of the rest");
                        w.check(format!("{:?}", it) == before, key, "Debug after Display");
                        w.eq(&cl.by_ref().collect::<String>(), &rest, key, "a clone's rest");
                        w.eq(&cl.next(), &None, key, "after the end");
                        w.eq(&it.collect::<String>(), &rest, key, "the rest");
                    }
                }};
            }
            run!(0, s.nfd());
            run!(1, s.nfc());
            run!(2, s.nfkd());
            run!(3, s.nfkc());
            relations(s, w);
        }
    });
    c.family("histories", "every word to length 3 (thorough 4), every point of the iteration: clone, format, bounds, formatting and resuming after the end", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: String = letters(&v, ALPHABET).into_iter().collect();
        macro_rules! run {
            ($f:expr, $it:expr) => {{
                let all = real($f, &s);
                let mut it = $it;
                for k in 0..=all.len() {
                    w.state();
                    w.steps(1);
                    let key = || format!("{} {} after {k}", FORMS[$f], esc(&s));
                    let rest: String = all[k..].iter().collect();
                    let (lo, hi) = it.size_hint();
                    w.check(lo <= all.len() - k && hi.map_or(true, |h| h >= all.len() - k), key, "size_hint does not bound what remains");
                    let mut cl = it.clone();
                    let before = format!("{:?}", it);
                    w.eq(&it.to_string(), &rest, key, "Display of the rest");
                    w.eq(&format!("{:?}", it), &before, key, "Debug after Display");
                    w.eq(&cl.by_ref().collect::<String>(), &rest, key, "a clone's rest");
                    for _ in 0..3 {
                        w.eq(&cl.next(), &None, key, "after the end");
                    }
                    w.eq(&cl.to_string(), &String::new(), key, "Display after the end");
                    mc_common::laws::forward(&|| it.clone(), &all[k..], &key, w);
                    w.eq(&it.next(), &all.get(k).copied(), key, "next");
                }
            }};
        }
        run!(0, s.nfd());
        run!(1, s.nfc());
        run!(2, s.nfkd());
        run!(3, s.nfkc());
        // Laziness: normalizing a lazy source reads only as far as needed to decide the next character.
        let letters = letters(&v, ALPHABET);
        let read = std::cell::Cell::new(0usize);
        for f in 0..4 {
            read.set(0);
            let src = letters.iter().copied().chain(std::iter::repeat('b')).inspect(|_| read.set(read.get() + 1));
            let first = match f {
                0 => src.nfd().next(),
                1 => src.nfc().next(),
                2 => src.nfkd().next(),
                _ => src.nfkc().next(),
            };
            let key = || format!("{} {} lazily", FORMS[f], esc(&s));
            w.check(first.is_some() && read.get() <= letters.len() + 3, key, "reads too far ahead for the first character");
        }
    });
}

fn n03(c: &mut Check) {
    let nf = Nf::load();
    c.family("decompositions", "every scalar value", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        let k = || format!("U+{:04X}", c as u32);
        w.state();
        for compat in [false, true] {
            let mut want = vec![];
            nf.full(c, compat, &mut want);
            let mut got = vec![];
            if compat {
                un::decompose_compatible(c, |x| got.push(x))
            } else {
                un::decompose_canonical(c, |x| got.push(x))
            }
            w.eq(&got, &want, k, if compat { "decompose_compatible" } else { "decompose_canonical" });
        }
        let mut want = vec![];
        nf.full(c, false, &mut want);
        let hangul = ('\u{ac00}'..='\u{d7a3}').contains(&c);
        // The one-step mapping expands to the full one, and exists exactly where the full one differs.
        let m = un::canonical_decomposition(c);
        w.eq(&(m.is_some() || hangul), &(want != [c]), k, "canonical_decomposition exists");
        if let Some(m) = m {
            let mut e = vec![];
            for x in m {
                nf.full(*x, false, &mut e)
            }
            w.eq(&e, &want, k, "canonical_decomposition, expanded");
            w.check(m.len() <= 2 && m[0] != c, k, "canonical_decomposition has one or two characters");
        }
        let mut wantk = vec![];
        nf.full(c, true, &mut wantk);
        if let Some(m) = un::compatibility_decomposition(c) {
            let mut e = vec![];
            for x in m {
                nf.full(*x, true, &mut e)
            }
            w.eq(&e, &wantk, k, "compatibility_decomposition, expanded");
        } else if m.is_none() && !hangul {
            w.eq(&wantk, &vec![c], k, "compatibility decomposition of what has no mapping");
        }
    });
    let mut firsts: Vec<char> = nf.pairs().keys().map(|p| p.0).collect();
    let mut seconds: Vec<char> = nf.pairs().keys().map(|p| p.1).collect();
    firsts.extend("\u{1100}\u{1112}\u{1113}\u{10ff}\u{ac00}\u{ac01}\u{ac1c}\u{d788}\u{d789}\u{d7a3}\u{d7a4}\u{abff}b\u{301}\u{10ffff}".chars());
    seconds.extend("\u{1161}\u{1160}\u{1175}\u{1176}\u{11a7}\u{11a8}\u{11c2}\u{11c3}b\u{ac00}\u{10ffff}".chars());
    for v in [&mut firsts, &mut seconds] {
        v.sort();
        v.dedup();
    }
    let firsts: &'static [char] = Box::leak(firsts.into_boxed_slice());
    let seconds: &'static [char] = Box::leak(seconds.into_boxed_slice());
    let cmp = move |a: char, b: char, w: &mut W| {
        let got = un::compose(a, b);
        let want = nf.compose(a, b);
        if got != want {
            w.fail(format!("U+{:04X} U+{:04X}", a as u32, b as u32), format!("compose: implementation {got:?}, model {want:?}"));
        }
    };
    c.family("pairs by second", "every scalar value, followed by every character that is second in some composition", N_SCALARS, move |i, w| {
        let a = scalar_at(i);
        w.state();
        w.steps(seconds.len());
        for b in seconds {
            cmp(a, *b, w)
        }
        w.trace();
    });
    c.family("pairs by first", "every character that is first in some composition, followed by every scalar value", N_SCALARS, move |i, w| {
        let b = scalar_at(i);
        w.state();
        w.steps(firsts.len());
        for a in firsts {
            cmp(*a, b, w)
        }
        w.trace();
    });
    if c.thorough() {
        // All pairs within the blocks up to U+3000 plus Hangul neighbours: decides that nothing else composes there.
        c.family("low pairs", "every pair of scalar values below U+3100", 0x3100 * 0x40, move |i, w| {
            let a = scalar_at(i / 0x40);
            let lo = (i % 0x40) * 0xC4;
            w.steps(0xC4);
            w.state();
            for b in lo..lo + 0xC4 {
                cmp(a, scalar_at(b), w)
            }
        });
    }
    c.family("jamo pairs", "every pair of L and V, and of every syllable with every T and neighbours", 11172 + 16, move |i, w| {
        let a = char::from_u32(0xABF8 + i as u32).unwrap();
        w.state();
        for t in 0x11A0..0x11D0 {
            w.steps(1);
            cmp(a, char::from_u32(t).unwrap(), w)
        }
        if i < 32 {
            for v in 0x1158..0x1180 {
                cmp(char::from_u32(0x10F8 + i as u32).unwrap(), char::from_u32(v).unwrap(), w)
            }
        }
    });
    c.family("back", "composing the last step of the decomposition of every primary composite gives it back", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        w.state();
        if let Some(m) = un::canonical_decomposition(c) {
            if m.len() == 2 {
                let want = nf.pairs().get(&(m[0], m[1])).copied();
                w.eq(&un::compose(m[0], m[1]), &want, || format!("U+{:04X}", c as u32), "compose of the decomposition");
                w.check(want == None || want == Some(c), || format!("U+{:04X}", c as u32), "two characters decompose alike");
            }
        }
    });
}

fn main() {
    let p = std::env::args().nth(1).expect("property");
    if p == "--marks" {
        let s: String = (0..N_SCALARS).map(|i| if un::is_combining_mark(scalar_at(i)) { '1' } else { '0' }).collect();
        println!("{s}");
        return;
    }
    let mut c = Check::new(&p);
    match p.as_str() {
        "N01" => n01(&mut c),
        "N02" => n02(&mut c),
        "N03" => n03(&mut c),
        _ => panic!("{p}"),
    }
    c.finish()
}
