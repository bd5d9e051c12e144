//! S01-S04: grapheme clusters, the grapheme cursor, words.
mod cursor;
mod model;
use mc_common::util::*;
use mc_common::*;
use model::*;
use unic_segment::*;

pub fn text(s: &[char]) -> String {
    s.iter().collect()
}
/// `pieces` are whole, in order, concatenate to `s`, and are cut at `want`.
fn cuts<'a>(s: &str, it: impl Iterator<Item = &'a str>) -> Option<Vec<usize>> {
    let mut v = vec![];
    let mut o = 0;
    for p in it {
        if p.as_ptr() as usize != s.as_ptr() as usize + o || p.is_empty() {
            return None;
        }
        v.push(o);
        o += p.len();
    }
    if o > 0 {
        v.push(o);
    }
    (o == s.len()).then_some(v)
}
fn show(s: &str, b: &[usize]) -> String {
    b.windows(2).map(|w| esc(&s[w[0]..w[1]])).collect::<Vec<_>>().join(" | ")
}
fn hash(b: &[usize]) -> u64 {
    let mut f = Fnv::default();
    for x in b {
        f.u64(*x as u64)
    }
    f.0
}

fn graphemes(t: &Tables, s: &[char], w: &mut W) {
    let x = text(s);
    for ext in [true, false] {
        let want = t.graphemes(s, ext);
        w.state();
        w.steps(s.len());
        w.outcome(hash(&want));
        let k = || format!("{} {}", if ext { "extended" } else { "legacy" }, esc(&x));
        let got = guard(|| {
            let it = if ext { Graphemes::new(&x) } else { Graphemes::new_legacy(&x) };
            let mut back: Vec<&str> = it.clone().rev().collect();
            back.reverse();
            (cuts(&x, it), cuts(&x, back.into_iter()))
        });
        w.trace();
        match got {
            Err(e) => w.fail(k(), format!("panic: {e}")),
            Ok((f, b)) => {
                for (g, d) in [(f, "forwards"), (b, "backwards")] {
                    if g.as_ref() != Some(&want) {
                        w.fail(k(), format!("{d}: implementation {}, model {}", g.map_or("pieces that are not the text".into(), |g| show(&x, &g)), show(&x, &want)));
                    }
                }
            }
        }
    }
}

/// Every interleaving of steps from both ends of a double-ended iterator.
/// `step(it, back)` gives the next piece's offset and length; `rest` what the iterator says remains.
#[allow(clippy::too_many_arguments)]
fn interleave<I: Clone>(
    s: &str,
    b: &[usize],
    it: &I,
    step: &impl Fn(&mut I, bool) -> Option<(usize, usize)>,
    rest: &impl Fn(&I) -> Option<(usize, usize)>,
    hint: &impl Fn(&I) -> (usize, Option<usize>),
    laws: &impl Fn(&I, &[usize], &dyn Fn() -> String, &mut W),
    w: &mut W,
    key: &dyn Fn() -> String,
    path: &mut String,
) {
    w.state();
    let n = b.len().saturating_sub(1);
    let (lo, hi) = hint(it);
    if lo > n || hi.map_or(false, |h| h < n) {
        w.fail(key(), format!("after {path}: size_hint ({lo}, {hi:?}), {n} remain"));
    }
    {
        let path: &str = path;
        laws(it, b, &|| format!("{} after {path}", key()), w);
    }
    let span = if n == 0 { None } else { Some((b[0], b[n])) };
    if let Some((x, y)) = rest(it) {
        let ok = match span {
            Some(s) => (x, y) == s,
            None => x == y,
        };
        if !ok {
            w.fail(key(), format!("after {path}: as_str is {x}..{y}, what remains is {span:?}"));
        }
    }
    if n == 0 {
        let mut i = it.clone();
        for back in [false, true, false] {
            if let Some(p) = step(&mut i, back) {
                return w.fail(key(), format!("after {path}: {p:?} after the end"));
            }
        }
        w.trace();
        return;
    }
    for back in [false, true] {
        if n == 1 && back && path.contains('<') {
            // still try: the last piece may be taken from either side
        }
        w.steps(1);
        let mut i = it.clone();
        let got = step(&mut i, back);
        let want = if back { (b[n - 1], b[n]) } else { (b[0], b[1]) };
        path.push(if back { '<' } else { '>' });
        if got != Some(want) {
            w.fail(key(), format!("{path}: implementation {:?}, model {:?}", got.map(|g| esc(&s[g.0..g.1])), esc(&s[want.0..want.1])));
        } else {
            let nb = if back { &b[..n] } else { &b[1..] };
            let nb = if nb.len() == 1 { &nb[..0] } else { nb };
            interleave(s, nb, &i, step, rest, hint, laws, w, key, path);
        }
        path.pop();
    }
}
fn pieces<'a>(s: &'a str, b: &[usize]) -> Vec<&'a str> {
    b.windows(2).map(|p| &s[p[0]..p[1]]).collect()
}
fn indices<'a>(s: &'a str, b: &[usize]) -> Vec<(usize, &'a str)> {
    b.windows(2).map(|p| (p[0], &s[p[0]..p[1]])).collect()
}
fn both<T: PartialEq + std::fmt::Debug + Clone, I: DoubleEndedIterator<Item = T> + Clone>(it: &I, rest: &[T], k: &dyn Fn() -> String, w: &mut W) {
    mc_common::laws::forward(&|| it.clone(), rest, k, w);
    mc_common::laws::backward(&|| it.clone(), rest, k, w);
}
fn span(s: &str, p: &str) -> (usize, usize) {
    let a = p.as_ptr() as usize - s.as_ptr() as usize;
    (a, a + p.len())
}

fn guarded(w: &mut W, key: &dyn Fn() -> String, f: impl FnOnce(&mut W)) {
    let k = std::panic::AssertUnwindSafe(w);
    let r = guard(|| {
        let k = k;
        f(k.0)
    });
    let _ = (&r, key);
    if let Err(e) = r {
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((key(), e)));
    }
}
thread_local!(static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = Default::default());
fn flush(w: &mut W) {
    if let Some((k, e)) = LAST_PANIC.with(|p| p.borrow_mut().take()) {
        w.fail(k, format!("panic: {e}"));
    }
}

const PUMP: [usize; 4] = [33, 66, 129, 260];

/// u v^n w by index: what only long texts reach.
fn pumped(at: &dyn Fn(u64) -> char, n: u64, i: u64, mut f: impl FnMut(&[char])) {
    let (u, e, v) = (i % n, i / n % n, i / n / n);
    let v = if v < n { vec![at(v)] } else { vec![at((v - n) % n), at((v - n) / n)] };
    for len in PUMP {
        let mut s = vec![at(u)];
        for _ in 0..len / v.len() {
            s.extend(&v);
        }
        s.push(at(e));
        f(&s)
    }
}

/// Runs in the middle of a word, and several runs of what the rules see through.
fn runs<'f>(c: &mut Check<'f>, letters: &[char], fillers: &[char], about: &str, f: impl Fn(&[char], &mut W) + Copy + Sync + 'f) {
    let n = letters.len() as u64;
    let a: &'static [char] = Box::leak(letters.to_vec().into_boxed_slice());
    let fs: Vec<u8> = fillers.iter().map(|x| letters.iter().position(|y| x == y).expect("a class") as u8).collect();
    let lens: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    let text = move |v: Vec<u8>| v.iter().map(|k| a[*k as usize]).collect::<Vec<char>>();
    c.family("stretched", &format!("every word of 4 classes {STRETCHES}, n of {lens:?} {about}"), stretched_size(n), move |i, w| {
        for m in lens {
            f(&text(stretched(n, i, *m)), w)
        }
    });
    let k = 4;
    c.family("spread", &format!("every word of 4 classes with n of one of {fillers:?} between each two, n of {lens:?} {about}"), spread_size(n, k, fs.len()), move |i, w| {
        for m in lens {
            f(&text(spread(n, k, i, &fs, *m)), w)
        }
    });
}

const HUGE: usize = 65_600;
/// u v^n w and its boundaries, for an even n far beyond what the model is run on: the model's boundaries of
/// u v^24 w, with two repeats of the middle stretched.
fn stretch(model: &dyn Fn(&[char]) -> Vec<usize>, u: char, v: &[char], e: char, n: usize) -> (String, Vec<usize>) {
    let mk = |n: usize| {
        let mut s = vec![u];
        for _ in 0..n {
            s.extend(v);
        }
        s.push(e);
        s
    };
    let n = n & !1;
    let short = model(&mk(24));
    let bv: usize = v.iter().map(|c| c.len_utf8()).sum();
    let cut = u.len_utf8() + 12 * bv;
    let period: Vec<usize> = short.iter().copied().filter(|b| (cut + 1..=cut + 2 * bv).contains(b)).collect();
    let before: Vec<usize> = short.iter().filter(|b| (cut + 1 - 2 * bv..=cut).contains(*b)).map(|b| b + 2 * bv).collect();
    assert_eq!(period, before, "the model is not periodic");
    let mut want: Vec<usize> = short.iter().copied().filter(|b| *b <= cut).collect();
    for j in 0..(n - 24) / 2 {
        want.extend(period.iter().map(|b| b + j * 2 * bv));
    }
    want.extend(short.iter().filter(|b| **b > cut).map(|b| b + (n - 24) * bv));
    (text(&mk(n)), want)
}
/// The first difference of two lists of boundaries, and what surrounds it.
fn differ(x: &str, got: Option<Vec<usize>>, want: &[usize]) -> Option<String> {
    let Some(got) = got else { return Some("pieces that are not the text".into()) };
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Some(format!("boundary #{i} of {} bytes: implementation {:?}, model {:?}", x.len(), got.get(i), want.get(i)))
}
fn huge_words(alpha: &'static [char], i: u64) -> (char, char, Vec<char>) {
    let n = alpha.len() as u64;
    let v = i / 4;
    let v = if v < n { vec![alpha[v as usize]] } else { vec![alpha[((v - n) % n) as usize], alpha[((v - n) / n) as usize]] };
    (['a', '\u{1f1e6}'][(i % 2) as usize], ['\u{301}', '\u{1f1e6}'][(i / 2 % 2) as usize], v)
}
fn huge_size(alpha: &[char]) -> u64 {
    let n = alpha.len() as u64;
    4 * (n + n * n)
}
fn huge_graphemes(t: &Tables, i: u64, alpha: &'static [char], w: &mut W) {
    let (u, e, v) = huge_words(alpha, i);
    for ext in [true, false] {
        let n = if v.contains(&'\u{1f1e6}') { 2000 } else { HUGE } / v.len();
        let (x, want) = stretch(&|s| t.graphemes(s, ext), u, &v, e, n);
        w.state();
        w.steps(want.len());
        let k = || format!("{} {} {} x {n} {}", if ext { "extended" } else { "legacy" }, esc(&u.to_string()), esc(&text(&v)), esc(&e.to_string()));
        let got = guard(|| {
            let it = if ext { Graphemes::new(&x) } else { Graphemes::new_legacy(&x) };
            let mut back: Vec<&str> = it.clone().rev().collect();
            back.reverse();
            (cuts(&x, it), cuts(&x, back.into_iter()))
        });
        w.trace();
        match got {
            Err(e) => w.fail(k(), format!("panic: {e}")),
            Ok((f, b)) => {
                for (g, d) in [(f, "forwards"), (b, "backwards")] {
                    if let Some(m) = differ(&x, g, &want) {
                        w.fail(k(), format!("{d}: {m}"));
                    }
                }
            }
        }
    }
}
fn huge_word_bounds(t: &Tables, i: u64, alpha: &'static [char], dirs: u8, w: &mut W) {
    let (u, e, v) = huge_words(alpha, i);
    let n = if v.contains(&'\u{1f1e6}') { 2000 } else { HUGE } / v.len();
    let (x, want) = stretch(&|s| t.words(s), u, &v, e, n);
    w.state();
    w.steps(want.len());
    let k = || format!("{} {} x {n} {}", esc(&u.to_string()), esc(&text(&v)), esc(&e.to_string()));
    let got = guard(|| {
        if dirs & 1 != 0 {
            return cuts(&x, WordBounds::new(&x));
        }
        let mut back: Vec<&str> = WordBounds::new(&x).rev().collect();
        back.reverse();
        cuts(&x, back.into_iter())
    });
    w.trace();
    match got {
        Err(e) => w.fail(k(), format!("panic: {e}")),
        Ok(g) => {
            if let Some(m) = differ(&x, g, &want) {
                w.fail(k(), m);
            }
        }
    }
}

fn s01(c: &mut Check) {
    let t = Tables::load();
    c.assume("reference Grapheme_Cluster_Break: derived from 10.0 tables (refdata/gcb.txt)");
    let n = GS.len() as u64;
    let len = by(6, 6);
    c.family("class words", "every word over one character of each of the 18 classes, to length 6, forwards and backwards, extended and legacy", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| GS[*k as usize].2).collect();
        graphemes(t, &s, w)
    });
    const CORE: &[char] = &['a', '\u{301}', '\u{200d}', '\u{1f1e6}', '\u{261d}', '\u{1f3fb}', '\u{1f466}', '\u{600}'];
    let len = by(8, 9);
    c.family("core words", "every word over 8 classes with look-behind, to length 8 (thorough 9)", words_upto(8, len), move |i, w| {
        let mut v = vec![];
        word_at(8, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| CORE[*k as usize]).collect();
        graphemes(t, &s, w)
    });
    c.family("long runs", "runs of n <= 200 regional indicators, extends or joiners between every pair of classes", 200 * 3 * n * n, move |i, w| {
        let k = i % (n * n);
        let m = ['\u{1f1e6}', '\u{301}', '\u{200d}'][(i / (n * n) % 3) as usize];
        let len = (i / (n * n) / 3 + 1) as usize;
        if len > 40 && k % 18 != 14 && k % 18 != 5 && k % 18 != 16 {
            return;
        }
        let mut s = vec![GS[(k / n) as usize].2];
        s.extend(std::iter::repeat(m).take(len));
        s.push(GS[(k % n) as usize].2);
        graphemes(t, &s, w)
    });
    c.family("every character", "every scalar value, alone and beside one character of each class", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        graphemes(t, &[c], w);
        for x in ['a', '\u{301}', '\u{1f1e6}', '\u{600}', '\u{903}', '\u{1100}', '\u{11a8}', '\u{ac00}', '\u{261d}', '\u{1f3fb}', '\u{200d}', '\n'] {
            graphemes(t, &[x, c], w);
            graphemes(t, &[c, x], w);
        }
        graphemes(t, &['\u{1f466}', c, '\u{1f3fb}'], w);
        graphemes(t, &['\u{1f1e6}', c, '\u{1f1e6}', '\u{1f1e6}'], w);
    });
    c.family("pumped", &format!("u v^n w: u and w of every class, v every word of one or two classes, n of {PUMP:?}"), n * n * (n + n * n), move |i, w| {
        pumped(&|k| GS[k as usize].2, n, i, |s| graphemes(t, s, w))
    });
    runs(c, &GS.iter().map(|x| x.2).collect::<Vec<_>>(), &['\u{301}', '\u{200d}', '\u{1f1e6}', '\u{903}'], "", move |s, w| graphemes(t, s, w));
    const F: &[char] = &['a', ' ', '\u{e9}', '\u{4e2d}'];
    c.family("aligned", &format!("every word of 1 to 3 over the 18 classes {PADDED}: fillers {F:?}"), (words_upto(n, 3) - 1) * F.len() as u64, move |i, w| {
        let mut v = vec![];
        word_at(n, i / F.len() as u64 + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| GS[*k as usize].2).collect();
        padded(F[i as usize % F.len()], &s, |s| graphemes(t, s, w))
    });
    const H: &[char] = &['a', '\u{301}', '\u{200d}', '\u{1f1e6}', '\u{261d}', '\u{1f3fb}', '\u{1f466}', '\u{600}', '\n', '\r', '\u{1100}', '\u{1161}', '\u{ac00}', '\u{903}'];
    c.family("huge", "u v^n w of 65,600 characters: v every word of one or two over 14 characters (2,000 characters with regional indicators)", huge_size(H), move |i, w| huge_graphemes(t, i, H, w));
    let len = by(4, 5);
    c.family("interleavings", "every word to length 4 (thorough 5), every interleaving of steps from the front and the back, with and without offsets", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| GS[*k as usize].2).collect();
        let x = text(&s);
        for ext in [true, false] {
            let b = t.graphemes(&s, ext);
            let k = || format!("{} {}", if ext { "extended" } else { "legacy" }, esc(&x));
            guarded(w, &k, |w| {
                let it = if ext { Graphemes::new(&x) } else { Graphemes::new_legacy(&x) };
                interleave(&x, &b, &it, &|i: &mut Graphemes, back| if back { i.next_back() } else { i.next() }.map(|p| span(&x, p)), &|i| Some(span(&x, i.as_str())), &|i| i.size_hint(), &|i, b, k, w| both(i, &pieces(&x, b), k, w), w, &k, &mut String::new());
                let it = if ext { GraphemeIndices::new(&x) } else { GraphemeIndices::new_legacy(&x) };
                interleave(&x, &b, &it, &|i: &mut GraphemeIndices, back| if back { i.next_back() } else { i.next() }.map(|(o, p)| (o, o + p.len())), &|i| Some(span(&x, i.as_str())), &|i| i.size_hint(), &|i, b, k, w| both(i, &indices(&x, b), k, w), w, &k, &mut String::new());
            });
            flush(w);
        }
    });
}

fn words(t: &Tables, s: &[char], w: &mut W, dirs: u8) {
    let x = text(s);
    let want = t.words(s);
    w.state();
    w.steps(s.len());
    w.outcome(hash(&want));
    let k = || esc(&x);
    let got = guard(|| {
        let f = if dirs & 1 != 0 { cuts(&x, WordBounds::new(&x)) } else { Some(want.clone()) };
        let b = if dirs & 2 != 0 {
            let mut back: Vec<&str> = WordBounds::new(&x).rev().collect();
            back.reverse();
            cuts(&x, back.into_iter())
        } else {
            Some(want.clone())
        };
        (f, b)
    });
    w.trace();
    match got {
        Err(e) => w.fail(k(), format!("panic: {e}")),
        Ok((f, b)) => {
            for (g, d) in [(f, "forwards"), (b, "backwards")] {
                if g.as_ref() != Some(&want) {
                    w.fail(k(), format!("{d}: implementation {}, model {}", g.map_or("pieces that are not the text".into(), |g| show(&x, &g)), show(&x, &want)));
                }
            }
        }
    }
}
const WCORE: &[char] = &['a', '\u{5d0}', '\'', '"', '.', '1', '\u{301}', '\u{200d}', '\u{1f1e6}', '\u{1f466}', '\u{1f3fb}'];

fn word_families(c: &mut Check, dirs: u8, d: &str) {
    let t = Tables::load();
    let n = WS.len() as u64;
    let len = by(6, 6);
    c.family("class words", &format!("every word over one character of each of the 22 classes, to length 6, {d}"), words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WS[*k as usize].2).collect();
        words(t, &s, w, dirs)
    });
    let len = by(7, 8);
    let m = WCORE.len() as u64;
    c.family("core words", &format!("every word over 11 classes with context rules, to length 7 (thorough 8), {d}"), words_upto(m, len), move |i, w| {
        let mut v = vec![];
        word_at(m, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WCORE[*k as usize]).collect();
        words(t, &s, w, dirs)
    });
    c.family("long runs", &format!("runs of n <= 64 regional indicators or ignorables between every pair of classes, {d}"), 64 * 4 * n * n, move |i, w| {
        let k = i % (n * n);
        let len = (i / (n * n) / 4 + 1) as usize;
        let mut s = vec![WS[(k / n) as usize].2];
        for j in 0..len {
            s.push(match i / (n * n) % 4 {
                0 => '\u{1f1e6}',
                1 => '\u{301}',
                2 => ['\u{1f1e6}', '\u{200d}'][j % 2],
                _ => ['\u{ad}', '\u{200d}', '\u{301}'][j % 3],
            })
        }
        s.push(WS[(k % n) as usize].2);
        words(t, &s, w, dirs)
    });
    c.family("pumped", &format!("u v^n w: u and w of every class, v every word of one or two classes, n of {PUMP:?}, {d}"), n * n * (n + n * n), move |i, w| {
        pumped(&|k| WS[k as usize].2, n, i, |s| words(t, s, w, dirs))
    });
    runs(c, &WS.iter().map(|x| x.2).collect::<Vec<_>>(), &['\u{301}', '\u{ad}', '\u{200d}', '\u{1f1e6}'], d, move |s, w| words(t, s, w, dirs));
    const F: &[char] = &['a', ' ', '1', '\u{e9}', '\u{4e2d}'];
    c.family("aligned", &format!("every word of 1 to 3 over the classes {PADDED}, {d}: fillers {F:?}"), (words_upto(n, 3) - 1) * F.len() as u64, move |i, w| {
        let mut v = vec![];
        word_at(n, i / F.len() as u64 + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| WS[*k as usize].2).collect();
        padded(F[i as usize % F.len()], &s, |s| words(t, s, w, dirs))
    });
    const H: &[char] = &['a', '\u{5d0}', '1', '_', '\u{30a1}', '\u{1f1e6}', '\u{261d}', '\u{200d}', '\u{301}', '\n', '\u{1f3fb}', ':', ',', '.', '\'', '"', '\u{ad}'];
    c.family("huge", &format!("u v^n w of 65,600 characters: v every word of one or two over 17 characters (2,000 characters with regional indicators), {d}"), huge_size(H), move |i, w| huge_word_bounds(t, i, H, dirs, w));
    c.family("every character", &format!("every scalar value, alone and in small contexts, {d}"), N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        words(t, &[c], w, dirs);
        for x in ['a', '\u{5d0}', '1', '_', '\u{30a1}', '\u{1f1e6}', '\u{261d}', '\u{200d}', '\u{301}', '\n', '\u{1f3fb}'] {
            words(t, &[x, c], w, dirs);
            words(t, &[c, x], w, dirs);
        }
        for x in ['a', '\u{5d0}', '1', '\u{1f1e6}'] {
            words(t, &[x, c, x], w, dirs);
        }
    });
}

fn s03(c: &mut Check) {
    c.assume("reference Word_Break: derived from 10.0 tables (refdata/wb.txt)");
    word_families(c, 1, "forwards");
    let t = Tables::load();
    let n = WS.len() as u64;
    let len = by(4, 5);
    c.family("offsets", "every word to length 4 (thorough 5): reported offsets", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WS[*k as usize].2).collect();
        let x = text(&s);
        let b = t.words(&s);
        w.state();
        let want: Vec<(usize, &str)> = b.windows(2).map(|p| (p[0], &x[p[0]..p[1]])).collect();
        let got = guard(|| WordBoundIndices::new(&x).collect::<Vec<_>>());
        w.eq(&got, &Ok(want), || esc(&x), "indices");
    });
}

fn s04(c: &mut Check) {
    word_families(c, 2, "backwards");
    let t = Tables::load();
    let n = WS.len() as u64;
    let len = by(4, 5);
    c.family("interleavings", "every word to length 4 (thorough 5), every interleaving of steps from the front and the back, with and without offsets", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WS[*k as usize].2).collect();
        inter_words(t, &s, w)
    });
    let len = by(5, 6);
    let m = WCORE.len() as u64;
    c.family("core interleavings", "every word over 11 classes to length 5 (thorough 6), every interleaving", words_upto(m, len), move |i, w| {
        let mut v = vec![];
        word_at(m, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WCORE[*k as usize]).collect();
        inter_words(t, &s, w)
    });
    let len = by(4, 5);
    c.family("filtered", "every word to length 4 (thorough 5), three filters, forwards, backwards and alternating", words_upto(n, len), move |i, w| {
        let mut v = vec![];
        word_at(n, i, &mut v);
        let s: Vec<char> = v.iter().map(|k| WS[*k as usize].2).collect();
        let x = text(&s);
        let b = t.words(&s);
        fn alnum(s: &&str) -> bool {
            s.chars().any(|c| c.is_alphanumeric())
        }
        fn long(s: &&str) -> bool {
            s.chars().count() > 1
        }
        fn all(_: &&str) -> bool {
            true
        }
        for (f, name) in [(alnum as fn(&&str) -> bool, "alphanumeric"), (long, "long"), (all, "all")] {
            let want: Vec<&str> = b.windows(2).map(|p| &x[p[0]..p[1]]).filter(|p| f(p)).collect();
            w.state();
            let k = || format!("{} filter {name}", esc(&x));
            let fw = guard(|| Words::new(&x, f).collect::<Vec<_>>());
            w.eq(&fw, &Ok(want.clone()), k, "forwards");
            let bw = guard(|| Words::new(&x, f).rev().collect::<Vec<_>>());
            w.eq(&bw, &Ok(want.iter().rev().copied().collect()), k, "backwards");
            guarded(w, &k, |w| {
                mc_common::laws::forward(&|| Words::new(&x, f), &want, &k, w);
                mc_common::laws::backward(&|| Words::new(&x, f), &want, &k, w);
            });
            for first in [0, 1] {
                let alt = guard(|| {
                    let mut it = Words::new(&x, f);
                    let (mut a, mut z) = (vec![], vec![]);
                    for j in 0..=want.len() {
                        match if (j + first) % 2 == 0 { it.next() } else { it.next_back() } {
                            Some(p) if (j + first) % 2 == 0 => a.push(p),
                            Some(p) => z.push(p),
                            None => break,
                        }
                    }
                    a.extend(z.into_iter().rev());
                    (a, it.next())
                });
                w.eq(&alt, &Ok((want.clone(), None)), k, "alternating");
            }
        }
    });
}
fn inter_words(t: &Tables, s: &[char], w: &mut W) {
    let x = text(s);
    let b = t.words(s);
    let k = || esc(&x);
    guarded(w, &k, |w| {
        interleave(&x, &b, &WordBounds::new(&x), &|i: &mut WordBounds, back| if back { i.next_back() } else { i.next() }.map(|p| span(&x, p)), &|i| Some(span(&x, i.as_str())), &|i| i.size_hint(), &|i, b, k, w| both(i, &pieces(&x, b), k, w), w, &k, &mut String::new());
        interleave(&x, &b, &WordBoundIndices::new(&x), &|i: &mut WordBoundIndices, back| if back { i.next_back() } else { i.next() }.map(|(o, p)| (o, o + p.len())), &|i| Some(span(&x, i.as_str())), &|i| i.size_hint(), &|i, b, k, w| both(i, &indices(&x, b), k, w), w, &k, &mut String::new());
    });
    flush(w);
}

fn main() {
    let p = std::env::args().nth(1).expect("property");
    let mut c = Check::new(&p);
    match p.as_str() {
        "S01" => s01(&mut c),
        "S02" => cursor::s02(&mut c),
        "S03" => s03(&mut c),
        "S04" => s04(&mut c),
        _ => panic!("{p}"),
    }
    c.finish()
}
