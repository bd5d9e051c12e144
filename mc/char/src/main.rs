//! C01-C04: character ranges, their iterators, and property tables.
use mc_common::util::*;
use mc_common::*;
use std::cmp::Ordering;
use std::ops::Bound;
use unic_char_property::tables::CharDataTable;
use unic_char_range::{chars, CharIter, CharRange};

/// Model of a range: an interval `a..b` of dense scalar indices.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct M {
    a: u32,
    b: u32,
}
impl M {
    fn new(a: i64, b: i64) -> M {
        if a >= b {
            M { a: 0, b: 0 }
        } else {
            M { a: a as u32, b: b as u32 }
        }
    }
    fn closed(lo: char, hi: char) -> M {
        M::new(scalar_index(lo) as i64, scalar_index(hi) as i64 + 1)
    }
    fn len(&self) -> usize {
        (self.b - self.a) as usize
    }
    fn first(&self) -> Option<char> {
        (self.len() > 0).then(|| scalar_at(self.a as u64))
    }
    fn last(&self) -> Option<char> {
        (self.len() > 0).then(|| scalar_at(self.b as u64 - 1))
    }
    fn nth(&mut self, n: usize) -> Option<char> {
        if n >= self.len() {
            *self = M { a: 0, b: 0 };
            return None;
        }
        let c = scalar_at(self.a as u64 + n as u64);
        *self = M::new(self.a as i64 + n as i64 + 1, self.b as i64);
        Some(c)
    }
    fn nth_back(&mut self, n: usize) -> Option<char> {
        if n >= self.len() {
            *self = M { a: 0, b: 0 };
            return None;
        }
        let c = scalar_at(self.b as u64 - 1 - n as u64);
        *self = M::new(self.a as i64, self.b as i64 - 1 - n as i64);
        Some(c)
    }
    fn all(&self) -> Vec<char> {
        (self.a..self.b).map(|i| scalar_at(i as u64)).collect()
    }
}

const EDGES: &[u32] = &[
    0, 1, 2, 3, 0x61, 0x62, 0x63, 0x64, 0xD7FC, 0xD7FD, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE002, 0xE003, 0xE7FF,
    0xE800, 0xE801, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF,
];
fn edge(i: usize) -> char {
    char::from_u32(EDGES[i]).unwrap()
}

fn key(lo: char, hi: char, extra: &str) -> String {
    format!("U+{:04X}..=U+{:04X}{extra}", lo as u32, hi as u32)
}

/// Everything that can be observed of an iterator without changing it.
fn observe(it: &CharIter, m: M, w: &mut W, k: &dyn Fn() -> String) {
    w.eq(&it.len(), &m.len(), k, "len");
    w.eq(&it.size_hint(), &(m.len(), Some(m.len())), k, "size_hint");
    w.eq(&it.clone().last(), &m.last(), k, "last");
    w.eq(&it.clone().max(), &m.last(), k, "max");
    w.eq(&it.clone().min(), &m.first(), k, "min");
    w.eq(&it.clone().next(), &m.first(), k, "next of a clone");
    w.eq(&it.clone().next_back(), &m.last(), k, "next_back of a clone");
    if m.len() <= 8 {
        let all = m.all();
        w.eq(&it.clone().collect::<Vec<_>>(), &all, k, "collect");
        w.eq(&it.clone().count(), &all.len(), k, "count");
        if m.len() <= 4 {
            mc_common::laws::forward(&|| it.clone(), &all, k, w);
            mc_common::laws::backward(&|| it.clone(), &all, k, w);
        }
        w.eq(
            &it.clone().rev().collect::<Vec<_>>(),
            &all.iter().rev().cloned().collect::<Vec<_>>(),
            k,
            "rev",
        );
        let mut f = vec![];
        it.clone().for_each(|c| f.push(c));
        w.eq(&f, &all, k, "for_each");
        let f = it.clone().rfold(vec![], |mut v, c| {
            v.insert(0, c);
            v
        });
        w.eq(&f, &all, k, "rfold");
        w.eq(
            &it.clone().step_by(2).collect::<Vec<_>>(),
            &all.iter().step_by(2).cloned().collect::<Vec<_>>(),
            k,
            "step_by",
        );
        w.eq(
            &it.clone().skip(1).collect::<Vec<_>>(),
            &all.iter().skip(1).cloned().collect::<Vec<_>>(),
            k,
            "skip",
        );
        let r: CharRange = it.clone().into();
        w.eq(&r.iter().collect::<Vec<_>>(), &all, k, "as a range");
    }
    let r: CharRange = it.clone().into();
    w.eq(&r.len(), &m.len(), k, "len as a range");
    w.eq(&r.is_empty(), &(m.len() == 0), k, "is_empty as a range");
}

/// Operations that change the iterator. 
const OPS: usize = 6;
fn op(o: usize, it: &mut CharIter, m: &mut M) -> (Option<char>, Option<char>, &'static str) {
    match o {
        0 => (it.next(), m.nth(0), "next"),
        1 => (it.next_back(), m.nth_back(0), "next_back"),
        2 => (it.nth(1), m.nth(1), "nth(1)"),
        3 => (it.nth_back(1), m.nth_back(1), "nth_back(1)"),
        4 => (it.by_ref().take(2).last(), { let a = m.nth(0); let b = m.nth(0); b.or(a) }, "by_ref().take(2).last()"),
        _ => {
            let all_lt = |x: &char| *x as u32 % 2 == 0;
            // find: stops at the first match
            let got = if m.len() > 8 { it.next() } else { it.find(all_lt) };
            let want = if m.len() > 8 {
                m.nth(0)
            } else {
                loop {
                    match m.nth(0) {
                        None => break None,
                        Some(c) if all_lt(&c) => break Some(c),
                        _ => (),
                    }
                }
            };
            (got, want, "find(even)")
        }
    }
}

fn histories(lo: char, hi: char, depth: usize, nops: usize, w: &mut W) {
    fn go(it: &CharIter, m: M, depth: usize, nops: usize, h: &mut Vec<&'static str>, lo: char, hi: char, w: &mut W) {
        let hist = h.clone();
        let k = || key(lo, hi, &format!(" after {hist:?}"));
        w.state();
        observe(it, m, w, &k);
        if depth == 0 {
            return;
        }
        for o in 0..nops {
            let mut i2 = it.clone();
            let mut m2 = m;
            let (got, want, name) = op(o, &mut i2, &mut m2);
            w.steps(1);
            w.eq(&got, &want, || format!("{} then {name}", k()), "result");
            h.push(name);
            go(&i2, m2, depth - 1, nops, h, lo, hi, w);
            h.pop();
        }
    }
    let m = M::closed(lo, hi);
    w.outcome(m.len() as u64);
    go(&CharRange::closed(lo, hi).iter(), m, depth, nops, &mut vec![], lo, hi, w);
}

fn c01() -> ! {
    let mut c = Check::new("C01");
    c.assume("ranges beyond the edge set are covered by the complete single-step and length families");
    let n = EDGES.len() as u64;
    let depth = by(5, 6);
    c.family(
        "edge-histories",
        "every pair of edge ends; every history of next, next_back, nth, nth_back, take, find",
        n * n,
        move |i, w| {
            let (lo, hi) = (edge((i / n) as usize), edge((i % n) as usize));
            w.sample(|| key(lo, hi, ""));
            histories(lo, hi, depth, OPS, w)
        },
    );
    let depth = by(9, 12);
    c.family(
        "short-ranges-deep",
        "every range of at most 7 characters at the code space edges and the surrogate gap; every front/back history",
        (EDGES.len() * 8) as u64,
        move |i, w| {
            let lo = edge((i / 8) as usize);
            let a = scalar_index(lo) as u64 + i % 8;
            if a < N_SCALARS {
                histories(lo, scalar_at(a), depth, 2, w)
            }
        },
    );
    // Jumps: by the distance from either end to each edge, one less and one more, and past the end.
    c.family(
        "jumps",
        "every pair of edge ends, every jump with nth or nth_back by the distance to any edge and its neighbours, or past the end (thorough: two such jumps in a row for every seventh pair)",
        n * n,
        move |i, w| {
            let (lo, hi) = (edge((i / n) as usize), edge((i % n) as usize));
            let m0 = M::closed(lo, hi);
            let dists = |m: M| {
                let mut v = vec![0usize, 1, m.len().saturating_sub(1), m.len(), m.len() + 1, usize::MAX];
                for e in 0..EDGES.len() {
                    let x = scalar_index(edge(e)) as i64;
                    for d in [x - m.a as i64, m.b as i64 - x] {
                        v.extend([d - 1, d, d + 1].iter().filter(|d| (0..=m.len() as i64).contains(*d)).map(|d| *d as usize));
                    }
                }
                v.sort();
                v.dedup();
                v
            };
            let far = by(false, true);
            for back in [false, true] {
                for d in dists(m0) {
                    let (mut it, mut m) = (CharRange::closed(lo, hi).iter(), m0);
                    let k = || key(lo, hi, if back { " nth_back" } else { " nth" }) + &format!("({d})");
                    w.state();
                    w.steps(1);
                    let (g, want) = if back { (it.nth_back(d), m.nth_back(d)) } else { (it.nth(d), m.nth(d)) };
                    w.eq(&g, &want, k, "character");
                    observe(&it, m, w, &k);
                    if far && i % 7 == 0 {
                        for d2 in dists(m) {
                            for b2 in [false, true] {
                                let (mut it, mut m) = (it.clone(), m);
                                w.state();
                                w.steps(1);
                                let (g, want) = if b2 { (it.nth_back(d2), m.nth_back(d2)) } else { (it.nth(d2), m.nth(d2)) };
                                let k = || format!("{} then {}({d2})", k(), if b2 { "nth_back" } else { "nth" });
                                w.eq(&g, &want, k, "character");
                                w.eq(&it.len(), &m.len(), k, "len");
                                w.eq(&(it.next(), it.next_back()), &(m.nth(0), m.nth_back(0)), k, "next and next_back");
                            }
                        }
                    }
                }
            }
        },
    );
    c.family(
        "every-scalar",
        "for every scalar: the ranges of 1 to 3 characters starting there, from both ends; the lengths of the ranges from U+0000 to it and from it to U+10FFFF",
        N_SCALARS,
        |i, w| {
            let lo = scalar_at(i);
            for l in 0..3u64 {
                if i + l >= N_SCALARS {
                    continue;
                }
                let hi = scalar_at(i + l);
                let k = || key(lo, hi, "");
                let want: Vec<char> = (0..=l).map(|d| scalar_at(i + d)).collect();
                w.state();
                w.steps(2 * l as usize);
                w.eq(&CharRange::closed(lo, hi).iter().collect::<Vec<_>>(), &want, k, "iter");
                let mut back: Vec<char> = CharRange::closed(lo, hi).into_iter().rev().collect();
                back.reverse();
                w.eq(&back, &want, k, "rev");
            }
            w.state();
            w.eq(&CharRange::closed('\0', lo).iter().len(), &(i as usize + 1), || key('\0', lo, ""), "len");
            w.eq(
                &CharRange::closed(lo, char::MAX).iter().len(),
                &((N_SCALARS - i) as usize),
                || key(lo, char::MAX, ""),
                "len",
            );
        },
    );
    c.family("whole-space", "the full range walked from the front, the back, and alternately", 3, |i, w| {
        let mut it = CharRange::all().iter();
        let mut m = M::closed('\0', char::MAX);
        let mut step = 0u64;
        loop {
            let front = i == 0 || (i == 2 && step % 2 == 0);
            let (g, want) = if front { (it.next(), m.nth(0)) } else { (it.next_back(), m.nth_back(0)) };
            step += 1;
            w.state();
            w.steps(1);
            if !w.eq(&g, &want, || format!("all() mode {i} step {step}"), "result") {
                break;
            }
            w.eq(&it.len(), &m.len(), || format!("all() mode {i} step {step}"), "len");
            if want.is_none() {
                break;
            }
        }
        for _ in 0..4 {
            w.eq(&(it.next(), it.next_back()), &(None, None), || format!("all() mode {i} after the end"), "result");
        }
    });
    c.finish()
}

fn c02() -> ! {
    let mut c = Check::new("C02");
    let n = EDGES.len() as u64;
    c.family(
        "constructors",
        "every pair of edge ends, every constructor, every edge character as a probe",
        n * n,
        move |i, w| {
            let (lo, hi) = (edge((i / n) as usize), edge((i % n) as usize));
            let (a, b) = (scalar_index(lo) as i64, scalar_index(hi) as i64);
            w.sample(|| key(lo, hi, ""));
            let top = N_SCALARS as i64;
            let closed = M::new(a, b + 1);
            let right = M::new(a, b);
            let left = M::new(a + 1, b + 1);
            let open = M::new(a + 1, b);
            use Bound::*;
            let list: Vec<(&str, CharRange, M)> = vec![
                ("closed", CharRange::closed(lo, hi), closed),
                ("open_right", CharRange::open_right(lo, hi), right),
                ("open_left", CharRange::open_left(lo, hi), left),
                ("open", CharRange::open(lo, hi), open),
                ("chars!(..=)", chars!(lo..=hi), closed),
                ("chars!(..)", chars!(lo..hi), right),
                ("bound II", CharRange::bound(Included(lo), Included(hi)), closed),
                ("bound IE", CharRange::bound(Included(lo), Excluded(hi)), right),
                ("bound EI", CharRange::bound(Excluded(lo), Included(hi)), left),
                ("bound EE", CharRange::bound(Excluded(lo), Excluded(hi)), open),
                ("bound UI", CharRange::bound(Unbounded, Included(hi)), M::new(0, b + 1)),
                ("bound UE", CharRange::bound(Unbounded, Excluded(hi)), M::new(0, b)),
                ("bound IU", CharRange::bound(Included(lo), Unbounded), M::new(a, top)),
                ("bound EU", CharRange::bound(Excluded(lo), Unbounded), M::new(a + 1, top)),
                ("bound UU", CharRange::bound(Unbounded, Unbounded), M::new(0, top)),
                ("all", CharRange::all(), M::new(0, top)),
                ("chars!(..) all", chars!(..), M::new(0, top)),
                ("assigned_normal_planes", CharRange::assigned_normal_planes(), M::new(0, 0x30000 - 0x800)),
            ];
            for (name, r, m) in &list {
                let k = || key(lo, hi, &format!(" {name}"));
                w.state();
                w.outcome(((m.a as u64) << 32) | m.b as u64);
                w.eq(&r.is_empty(), &(m.len() == 0), k, "is_empty");
                w.eq(&r.len(), &m.len(), k, "len");
                w.eq(&r.iter().len(), &m.len(), k, "iter().len()");
                w.eq(&r.iter().next(), &m.first(), k, "first");
                w.eq(&r.iter().next_back(), &m.last(), k, "last");
                if m.len() > 0 {
                    w.eq(&(r.low, r.high), &(m.first().unwrap(), m.last().unwrap()), k, "ends");
                }
                for p in EDGES {
                    let ch = char::from_u32(*p).unwrap();
                    let x = scalar_index(ch);
                    let inside = m.a <= x && x < m.b;
                    let kp = || format!("{} probe U+{p:04X}", k());
                    w.steps(1);
                    w.eq(&r.contains(ch), &inside, kp, "contains");
                    if m.len() > 0 {
                        let want = if m.b <= x {
                            Ordering::Less
                        } else if m.a > x {
                            Ordering::Greater
                        } else {
                            Ordering::Equal
                        };
                        w.eq(&r.cmp_char(ch), &want, kp, "cmp_char");
                    } else {
                        // May panic (documented), but never says Equal.
                        let got = guard(|| r.cmp_char(ch));
                        w.check(got != Ok(Ordering::Equal), kp, "an empty range compares Equal");
                    }
                }
            }
            for (n1, r1, m1) in &list {
                for (n2, r2, m2) in &list {
                    w.eq(&(r1 == r2), &(m1 == m2), || key(lo, hi, &format!(" {n1} == {n2}")), "equality");
                }
            }
        },
    );
    let k = n;
    c.family(
        "equality",
        "every pair of closed ranges between edges: equality is equality of the sets",
        k * k * k,
        move |i, w| {
            let (a, b, c) = (edge((i / k / k) as usize), edge((i / k % k) as usize), edge((i % k) as usize));
            for d in 0..EDGES.len() {
                let d = edge(d);
                w.state();
                let (x, y) = (CharRange::closed(a, b), CharRange::closed(c, d));
                let want = M::closed(a, b) == M::closed(c, d);
                w.eq(&(x == y), &want, || format!("{} == {}", key(a, b, ""), key(c, d, "")), "equality");
            }
        },
    );
    c.family(
        "every-scalar",
        "for every scalar c: the ranges around c of every constructor, c and its neighbours as probes",
        N_SCALARS,
        |i, w| {
            let c0 = scalar_at(i);
            let p = scalar_at(i.saturating_sub(1));
            let n = scalar_at((i + 1).min(N_SCALARS - 1));
            let i = i as i64;
            let (pi, ni) = ((i - 1).max(0), (i + 1).min(N_SCALARS as i64 - 1));
            for (name, r, m) in [
                ("closed(c,c)", CharRange::closed(c0, c0), M::new(i, i + 1)),
                ("open(p,n)", CharRange::open(p, n), M::new(pi + 1, ni)),
                ("open_left(p,c)", CharRange::open_left(p, c0), M::new(pi + 1, i + 1)),
                ("open_right(c,n)", CharRange::open_right(c0, n), M::new(i, ni)),
                ("closed(n,p)", CharRange::closed(n, p), M::new(ni, pi + 1)),
                ("open(c,c)", CharRange::open(c0, c0), M::new(0, 0)),
            ] {
                let k = || format!("U+{:04X} {name}", c0 as u32);
                w.state();
                w.eq(&r.len(), &m.len(), k, "len");
                w.eq(&r.is_empty(), &(m.len() == 0), k, "is_empty");
                for ch in [p, c0, n] {
                    let x = scalar_index(ch);
                    w.eq(&r.contains(ch), &(m.a <= x && x < m.b), k, "contains");
                }
                w.eq(&r.iter().collect::<Vec<_>>(), &m.all(), k, "iter");
            }
        },
    );
    c.finish()
}

mod par {
    use super::*;
    use rayon::iter::plumbing::*;
    use rayon::prelude::*;

    /// Every way to split a producer of `n` items into a binary tree; each leaf is drained.
    /// `plan` drives the choices: a shared odometer over choice points.
    pub struct Choices {
        pub plan: Vec<(usize, usize)>,
        pub at: usize,
    }
    impl Choices {
        fn choose(&mut self, n: usize) -> usize {
            if self.at == self.plan.len() {
                self.plan.push((0, n));
            }
            self.at += 1;
            self.plan[self.at - 1].0
        }
        /// Next plan in depth-first order; false when all were tried.
        pub fn advance(&mut self) -> bool {
            self.at = 0;
            while let Some((k, n)) = self.plan.pop() {
                if k + 1 < n {
                    self.plan.push((k + 1, n));
                    return true;
                }
            }
            false
        }
    }
    struct Cb<'a> {
        ch: &'a mut Choices,
        len: usize,
    }
    fn drain<P: Producer<Item = char>>(p: P, len: usize, ch: &mut Choices, out: &mut Vec<char>) {
        // Choice 0: a leaf drained forwards; 1: backwards; 2..: split at position k-2.
        let k = ch.choose(if len >= 1 { len + 3 } else { 1 });
        match k {
            0 => out.extend(p.into_iter()),
            1 => {
                let mut v: Vec<char> = p.into_iter().rev().collect();
                v.reverse();
                out.extend(v)
            }
            k => {
                let at = k - 2;
                if at == 0 || at == len {
                    // Degenerate split: one side empty; drain both without splitting further.
                    let (l, r) = p.split_at(at);
                    out.extend(l.into_iter());
                    out.extend(r.into_iter());
                } else {
                    let (l, r) = p.split_at(at);
                    drain(l, at, ch, out);
                    drain(r, len - at, ch, out);
                }
            }
        }
    }
    impl<'a> ProducerCallback<char> for Cb<'a> {
        type Output = Vec<char>;
        fn callback<P: Producer<Item = char>>(self, p: P) -> Vec<char> {
            let mut out = vec![];
            drain(p, self.len, self.ch, &mut out);
            out
        }
    }
    pub fn split_trees(r: CharRange, m: M, w: &mut W, k: &dyn Fn() -> String) {
        let mut ch = Choices { plan: vec![], at: 0 };
        let all = m.all();
        loop {
            ch.at = 0;
            let got = r.into_par_iter().with_producer(Cb { ch: &mut ch, len: m.len() });
            w.state();
            w.steps(all.len());
            let plan: Vec<usize> = ch.plan.iter().map(|p| p.0).collect();
            w.eq(&got, &all, || format!("{} split plan {plan:?}", k()), "items");
            if !ch.advance() {
                break;
            }
        }
    }
    pub fn whole(r: CharRange, m: M, w: &mut W, k: &dyn Fn() -> String, pools: &[rayon::ThreadPool]) {
        w.eq(&r.into_par_iter().len(), &m.len(), k, "par_iter len");
        w.eq(&(&r).into_par_iter().len(), &m.len(), k, "par_iter len by reference");
        for (i, p) in pools.iter().enumerate() {
            w.state();
            w.steps(m.len());
            let kk = || format!("{} threads={}", k(), i + 1);
            if m.len() <= 5000 {
                let all = m.all();
                let got: Vec<char> = p.install(|| r.into_par_iter().collect());
                w.eq(&got, &all, kk, "collect");
                // The unindexed path: order kept by the list collector.
                let got: Vec<char> = p.install(|| r.into_par_iter().filter(|_| true).collect());
                w.eq(&got, &all, kk, "filter+collect");
                let mut got: Vec<char> = p.install(|| (&r).into_par_iter().rev().collect());
                got.reverse();
                w.eq(&got, &all, kk, "rev");
                let got: Vec<char> = p.install(|| r.into_par_iter().with_min_len(3).collect());
                w.eq(&got, &all, kk, "min_len");
                // Paths that need the length and the positions.
                let mut got = vec!['?'; 3];
                p.install(|| r.into_par_iter().collect_into_vec(&mut got));
                w.eq(&got, &all, kk, "collect_into_vec");
                p.install(|| r.into_par_iter().with_max_len(1).collect_into_vec(&mut got));
                w.eq(&got, &all, kk, "max_len 1, collect_into_vec");
                p.install(|| r.into_par_iter().rev().collect_into_vec(&mut got));
                got.reverse();
                w.eq(&got, &all, kk, "rev, collect_into_vec");
                let got: Vec<(usize, char)> = p.install(|| r.into_par_iter().enumerate().filter(|_| true).collect());
                w.check(got.iter().enumerate().all(|(i, x)| *x == (i, all[i])) && got.len() == all.len(), kk, "enumerate");
                let got: Vec<(char, char)> = p.install(|| (&r).into_par_iter().zip(r.into_par_iter().rev()).collect());
                w.check(got.len() == all.len() && got.iter().enumerate().all(|(i, x)| *x == (all[i], all[all.len() - 1 - i])), kk, "zip with rev");
                let half = all.len() / 2;
                let got: Vec<char> = p.install(|| r.into_par_iter().skip(half).collect());
                w.eq(&&got[..], &&all[half..], kk, "skip");
                let got: Vec<char> = p.install(|| r.into_par_iter().take(half).collect());
                w.eq(&&got[..], &&all[..half], kk, "take");
                if half > 0 {
                    let got: Vec<Vec<char>> = p.install(|| r.into_par_iter().chunks(half).collect());
                    w.eq(&got, &all.chunks(half).map(|c| c.to_vec()).collect::<Vec<_>>(), kk, "chunks");
                    w.eq(&p.install(|| r.into_par_iter().position_any(|c| c == all[half])), &Some(half), kk, "position_any");
                    w.eq(&p.install(|| r.into_par_iter().find_first(|c| *c >= all[half])), &Some(all[half]), kk, "find_first");
                }
            }
            w.eq(&p.install(|| r.into_par_iter().count()), &m.len(), kk, "count");
            let sum: u64 = p.install(|| r.into_par_iter().map(|c| c as u64).sum());
            let want: u64 = r.iter().map(|c| c as u64).sum();
            w.eq(&sum, &want, kk, "sum of code points against the sequential iterator");
            let min = p.install(|| r.into_par_iter().min());
            let max = p.install(|| r.into_par_iter().max());
            w.eq(&(min, max), &(m.first(), m.last()), kk, "min and max");
        }
    }
    pub fn c03() -> ! {
        let mut c = Check::new("C03");
        c.assume("rayon's own splitting and scheduling are exercised through its public plumbing: every split tree of a producer is enumerated; pools of 1 to 4 threads run the whole-range families");
        let n = EDGES.len() as u64;
        let maxlen = by(6, 7);
        c.family(
            "split-trees",
            "every range of at most 6 (thorough 7) characters from an edge; every binary split tree, every leaf drained in either direction",
            n * 8,
            move |i, w| {
                let lo = edge((i / 8) as usize);
                let l = (i % 8) as usize;
                if l > maxlen {
                    return;
                }
                let a = scalar_index(lo) as u64;
                if a + l as u64 > N_SCALARS {
                    return;
                }
                let m = M::new(a as i64, a as i64 + l as i64);
                let r = if l == 0 {
                    CharRange::open(lo, lo)
                } else {
                    CharRange::closed(lo, scalar_at(a + l as u64 - 1))
                };
                w.sample(|| format!("U+{:04X} + {l}", lo as u32));
                let k = || format!("U+{:04X} + {l} characters", lo as u32);
                w.outcome(hash_bytes(format!("{m:?}").as_bytes()));
                split_trees(r, m, w, &k)
            },
        );
        let pools: Vec<_> = (1..=4)
            .map(|t| rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap())
            .collect();
        let pools = std::sync::Arc::new(pools);
        c.family(
            "edge-ranges",
            "every pair of edge ends on pools of 1 to 4 threads: items, order, length, count, sum, min, max",
            n * n,
            move |i, w| {
                let (lo, hi) = (edge((i / n) as usize), edge((i % n) as usize));
                let r = CharRange::closed(lo, hi);
                w.sample(|| key(lo, hi, ""));
                whole(r, M::closed(lo, hi), w, &|| key(lo, hi, ""), &pools)
            },
        );
        c.family(
            "every-scalar",
            "for every scalar: the parallel iterator of the range of up to 2 characters starting there, its length, and the lengths of the ranges to and from it",
            N_SCALARS,
            |i, w| {
                let lo = scalar_at(i);
                let hi = scalar_at((i + 1).min(N_SCALARS - 1));
                let m = M::closed(lo, hi);
                let k = || key(lo, hi, "");
                w.state();
                struct All;
                impl ProducerCallback<char> for All {
                    type Output = Vec<char>;
                    fn callback<P: Producer<Item = char>>(self, p: P) -> Vec<char> {
                        p.into_iter().collect()
                    }
                }
                let r = CharRange::closed(lo, hi);
                w.eq(&r.into_par_iter().with_producer(All), &m.all(), k, "items");
                let mut got = vec![];
                r.into_par_iter().collect_into_vec(&mut got);
                w.eq(&got, &m.all(), k, "collect_into_vec");
                w.eq(&CharRange::closed('\0', lo).into_par_iter().len(), &(i as usize + 1), k, "length from U+0000");
                w.eq(
                    &CharRange::closed(lo, char::MAX).into_par_iter().len(),
                    &((N_SCALARS - i) as usize),
                    k,
                    "length to U+10FFFF",
                );
            },
        );
        c.finish()
    }
}

fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

/// All observable lookups of a table, against the list of its entries.
fn table_check(t: &CharDataTable<u8>, entries: &[(CharRange, u8)], probes: &[char], ranged: bool, w: &mut W, k: &dyn Fn() -> String) {
    for &p in probes {
        w.steps(1);
        let kp = || format!("{} probe U+{:04X}", k(), p as u32);
        let want = entries.iter().find(|(r, _)| r.low <= p && p <= r.high);
        w.eq(&t.find(p), &want.map(|x| x.1), kp, "find");
        w.eq(&t.contains(p), &want.is_some(), kp, "contains");
        w.eq(&t.find_or_default(p), &want.map_or(0, |x| x.1), kp, "find_or_default");
        let wr = if ranged { want.map(|x| (x.0.low, x.0.high, x.1)) } else { None };
        w.eq(
            &t.find_with_range(p).map(|(r, v)| (r.low, r.high, v)),
            &wr,
            kp,
            "find_with_range",
        );
    }
    let got: Vec<_> = t.iter().map(|(r, v)| (r.low, r.high, v)).collect();
    let want: Vec<_> = entries.iter().map(|(r, v)| (r.low, r.high, *v)).collect();
    w.eq(&got, &want, k, "iter");
    let mut it = t.iter();
    for _ in 0..entries.len() {
        it.next();
    }
    w.check(it.next().is_none() && it.next().is_none(), k, "iter goes on after the end");
    for at in [0, 1, entries.len() / 2, entries.len()] {
        let mk = || {
            let mut it = t.iter();
            for _ in 0..at {
                it.next();
            }
            it.map(|(r, v)| (r.low, r.high, v))
        };
        laws::forward(&mk, want.get(at..).unwrap_or(&[]), k, w);
        let mut it = t.iter();
        w.eq(&it.nth(at).map(|(r, v)| (r.low, r.high, v)), &want.get(at).copied(), k, "nth");
        w.eq(&it.next().map(|(r, v)| (r.low, r.high, v)), &want.get(at + 1).copied(), k, "next after nth");
    }
}

fn c04() -> ! {
    let mut c = Check::new("C04");
    c.assume("well-formed tables: sorted, disjoint, no empty range (what the generator writes, G01)");
    // A universe with both ends of the code space and the surrogate gap.
    let uni: Vec<u32> = vec![0, 1, 0x61, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF];
    let uni: &'static [u32] = leak(uni);
    let nu = by(8u32, 9);
    let probes: Vec<char> = (0..N_SCALARS).map(scalar_at).filter(|c| {
        let v = *c as u32;
        uni.iter().any(|u| v.abs_diff(*u) <= 1)
    }).collect();
    let probes: &'static [char] = leak(probes);
    for (wname, off) in [("low", 0usize), ("high", uni.len() - nu as usize)] {
        c.family(
            &format!("direct-{wname}"),
            "direct tables: every subset of the universe, every assignment of 2 values",
            3u64.pow(nu),
            move |i, w| {
                let mut word = vec![];
                word_k(3, nu, i, &mut word);
                let e: Vec<(char, u8)> = word
                    .iter()
                    .enumerate()
                    .filter(|(_, s)| **s > 0)
                    .map(|(j, s)| (char::from_u32(uni[j + off]).unwrap(), *s))
                    .collect();
                let entries: Vec<(CharRange, u8)> = e.iter().map(|(c, v)| (CharRange::closed(*c, *c), *v)).collect();
                w.state();
                w.outcome(hash_bytes(&word));
                w.sample(|| format!("{e:?}"));
                let d = format!("direct {e:?}");
                table_check(&CharDataTable::Direct(leak(e)), &entries, probes, false, w, &|| d.clone())
            },
        );
        c.family(
            &format!("range-{wname}"),
            "range tables: every way to lay disjoint ranges between universe points, every assignment of 2 values",
            4u64.pow(nu),
            move |i, w| {
                // Per point: absent, start of a range with value 1 or 2, or extends the current range.
                let mut word = vec![];
                word_k(4, nu, i, &mut word);
                let mut e: Vec<(CharRange, u8)> = vec![];
                let mut open = false;
                for (j, s) in word.iter().enumerate() {
                    let ch = char::from_u32(uni[j + off]).unwrap();
                    match *s {
                        0 => open = false,
                        3 => {
                            if !open {
                                return; // not a table
                            }
                            e.last_mut().unwrap().0.high = ch;
                        }
                        v => {
                            e.push((CharRange::closed(ch, ch), v));
                            open = true;
                        }
                    }
                }
                w.state();
                w.outcome(hash_bytes(&word));
                let d = format!("range {:?}", e.iter().map(|(r, v)| (r.low as u32, r.high as u32, *v)).collect::<Vec<_>>());
                let entries = e.clone();
                table_check(&CharDataTable::Range(leak(e)), &entries, probes, true, w, &|| d.clone())
            },
        );
    }
    let max = by(160u64, 600);
    c.family(
        "sizes",
        "direct and range tables of every size up to 160 (thorough 600), entries of width 1 to 3 with gaps of 0 to 2, every character probed",
        max * 9,
        move |i, w| {
            let (n, width, gap) = (i / 9, (i % 9) / 3 + 1, i % 3);
            let mut e = vec![];
            let mut d = vec![];
            let mut x = 0xD780u64; // crosses the surrogate gap for n > 40
            for j in 0..n {
                let v = (j % 250) as u8 + 1;
                e.push((CharRange::closed(scalar_at(x), scalar_at(x + width - 1)), v));
                d.push((scalar_at(x), v));
                x += width + gap;
            }
            let probes: Vec<char> = (0xD77Eu64..x + 3).map(scalar_at).collect();
            w.state();
            let name = format!("size={n} width={width} gap={gap}");
            let entries = e.clone();
            table_check(&CharDataTable::Range(leak(e)), &entries, &probes, true, w, &|| format!("range {name}"));
            let entries: Vec<_> = d.iter().map(|(c, v)| (CharRange::closed(*c, *c), *v)).collect();
            table_check(&CharDataTable::Direct(leak(d)), &entries, &probes, false, w, &|| format!("direct {name}"));
        },
    );
    c.family("default", "the default table is empty", 1, |_, w| {
        w.state();
        let t: CharDataTable<u8> = Default::default();
        for i in 0..N_SCALARS {
            w.check(!t.contains(scalar_at(i)) && t.find(scalar_at(i)).is_none(), || format!("{i}"), "not empty");
        }
        w.check(t.iter().next().is_none(), || "iter".into(), "not empty");
    });
    c.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C01") => c01(),
        Some("C02") => c02(),
        Some("C03") => par::c03(),
        Some("C04") => c04(),
        _ => panic!("property?"),
    }
}
