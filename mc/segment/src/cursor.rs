//! S02: the cursor over chunked text.
use crate::model::*;
use crate::text;
use mc_common::util::*;
use mc_common::*;
use unic_segment::{GraphemeCursor as Real, GraphemeIncomplete};

/// The cursor over a text of which only a window is there: the text has `shift` bytes before the
/// window and `tail` after it. Offsets here are offsets in the window.
struct GraphemeCursor {
    c: Real,
    shift: usize,
}
type R<T> = Result<T, GraphemeIncomplete>;
impl GraphemeCursor {
    fn start(at: usize, len: usize, (shift, tail): (usize, usize), extended: bool) -> Self {
        let (at, len) = (at + shift, len + shift + tail);
        GraphemeCursor { c: if extended { Real::new(at, len) } else { Real::new_legacy(at, len) }, shift }
    }
    fn cur_cursor(&self) -> usize {
        self.c.cur_cursor().wrapping_sub(self.shift)
    }
    fn set_cursor(&mut self, p: usize) {
        self.c.set_cursor(p + self.shift)
    }
    fn near<T>(&self, r: R<T>) -> R<T> {
        r.map_err(|e| match e {
            GraphemeIncomplete::PreContext(p) => GraphemeIncomplete::PreContext(p.wrapping_sub(self.shift)),
            e => e,
        })
    }
    fn next_boundary(&mut self, chunk: &str, start: usize) -> R<Option<usize>> {
        let r = self.c.next_boundary(chunk, start + self.shift);
        self.near(r).map(|x| x.map(|b| b.wrapping_sub(self.shift)))
    }
    fn prev_boundary(&mut self, chunk: &str, start: usize) -> R<Option<usize>> {
        let r = self.c.prev_boundary(chunk, start + self.shift);
        self.near(r).map(|x| x.map(|b| b.wrapping_sub(self.shift)))
    }
    fn is_boundary(&mut self, chunk: &str, start: usize) -> R<bool> {
        let r = self.c.is_boundary(chunk, start + self.shift);
        self.near(r)
    }
    fn provide_context(&mut self, chunk: &str, start: usize) {
        self.c.provide_context(chunk, start + self.shift)
    }
}

/// The text, its cuts (byte offsets of chunk starts, with 0 and the end), and its boundaries.
struct Ctx<'a> {
    s: &'a str,
    cuts: &'a [usize],
    bounds: &'a [usize],
    /// Context is given as the whole prefix instead of one chunk.
    whole: bool,
    /// Each query is first put with every chunk that is not at the cursor, and begins with the
    /// chunk on the other side when the cursor is between two.
    probe: bool,
    /// What the whole text has before and after `s`.
    around: (usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Next,
    Prev,
    Is,
    Set(usize),
    /// Begin a query, give up at its first request, and reposition.
    DropNext(usize),
    DropPrev(usize),
    DropIs(usize),
}

impl<'a> Ctx<'a> {
    /// The chunk with the character at `o`.
    fn at(&self, o: usize) -> usize {
        self.cuts.iter().rposition(|c| *c <= o).unwrap().min(self.cuts.len() - 2)
    }
    fn chunk(&self, k: usize) -> (&'a str, usize) {
        (&self.s[self.cuts[k]..self.cuts[k + 1]], self.cuts[k])
    }
    fn context(&self, c: &mut GraphemeCursor, p: usize, given: usize) -> Result<(), String> {
        if p == 0 || p > self.cuts[given] || !self.cuts.contains(&p) {
            return Err(format!("asks for context before {p}, with the chunk from {} given", self.cuts[given]));
        }
        let k = self.cuts.iter().position(|c| *c == p).unwrap() - 1;
        let start = if self.whole { 0 } else { self.cuts[k] };
        c.provide_context(&self.s[start..p], start);
        Ok(())
    }
    /// Answer a query, giving everything that is asked for.
    fn query(&self, c: &mut GraphemeCursor, op: Op, drop: bool) -> Result<Option<Option<usize>>, String> {
        let o = c.cur_cursor();
        let mut k = match op {
            Op::Prev if o > 0 => self.at(o - 1),
            _ => self.at(o),
        };
        let last = self.cuts.len() - 2;
        if self.probe {
            for j in 0..=last {
                let (chunk, start) = self.chunk(j);
                if o < start || o > start + chunk.len() {
                    let (r, settled) = match op {
                        Op::Next => (c.next_boundary(chunk, start), o == self.s.len()),
                        Op::Prev => (c.prev_boundary(chunk, start), o == 0),
                        _ => (c.is_boundary(chunk, start).map(|b| b.then_some(0)), true),
                    };
                    match r {
                        Err(GraphemeIncomplete::InvalidOffset) => {}
                        Ok(x) if settled && op != Op::Is && x.is_none() => {}
                        Ok(x) if op == Op::Is && x.is_some() == self.bounds.contains(&o) => {}
                        r => return Err(format!("{r:?} with the chunk from {start}, which is not at the cursor")),
                    }
                }
            }
            if op == Op::Next && k > 0 && self.cuts[k] == o {
                k -= 1;
            } else if op == Op::Prev && k < last && self.cuts[k + 1] == o {
                k += 1;
            }
        }
        for _ in 0..4 * self.s.len() + 8 {
            let (chunk, start) = self.chunk(k);
            let r = match op {
                Op::Next => c.next_boundary(chunk, start),
                Op::Prev => c.prev_boundary(chunk, start),
                _ => c.is_boundary(chunk, start).map(|b| b.then_some(0)),
            };
            match r {
                Ok(x) => return Ok(Some(x)),
                Err(_) if drop => return Ok(None),
                Err(GraphemeIncomplete::PreContext(p)) => self.context(c, p, k)?,
                Err(GraphemeIncomplete::NextChunk) if op == Op::Next && k < last => k += 1,
                Err(GraphemeIncomplete::PrevChunk) if op == Op::Prev && k > 0 => k -= 1,
                Err(e) => return Err(format!("unexpected request {e:?} with the chunk from {start}")),
            }
        }
        Err("never stops asking".into())
    }
    /// Runs the history; gives the first wrong answer.
    fn run(&self, extended: bool, at: usize, ops: &[Op], w: &mut W) -> Result<(), String> {
        let len = self.s.len();
        let mut c = GraphemeCursor::start(at, len, self.around, extended);
        let mut o = at;
        for (i, op) in ops.iter().enumerate() {
            w.steps(1);
            let fail = |got: String, want: String| Err(format!("step {} {:?} at {o}: implementation {got}, model {want}", i + 1, op));
            match *op {
                Op::Set(p) => {
                    c.set_cursor(p);
                    o = p;
                }
                Op::DropNext(p) | Op::DropPrev(p) | Op::DropIs(p) => {
                    let q = match op {
                        Op::DropNext(_) => Op::Next,
                        Op::DropPrev(_) => Op::Prev,
                        _ => Op::Is,
                    };
                    self.query(&mut c, q, true).map_err(|e| format!("step {} {op:?}: {e}", i + 1))?;
                    c.set_cursor(p);
                    o = p;
                }
                Op::Is => {
                    let want = self.bounds.contains(&o);
                    let got = self.query(&mut c, *op, false).map_err(|e| format!("step {} {op:?} at {o}: {e}", i + 1))?;
                    if got != Some(want.then_some(0)) {
                        return fail(format!("{}", got.unwrap().is_some()), format!("{want}"));
                    }
                }
                Op::Next | Op::Prev => {
                    let want = if *op == Op::Next {
                        self.bounds.iter().find(|b| **b > o).copied()
                    } else {
                        self.bounds.iter().rev().find(|b| **b < o).copied()
                    };
                    let got = self.query(&mut c, *op, false).map_err(|e| format!("step {} {op:?} at {o}: {e}", i + 1))?.unwrap();
                    if got != want {
                        return fail(format!("{got:?}"), format!("{want:?}"));
                    }
                    w.outcome((got.map_or(0, |g| g as u64 + 1) << 8) + o as u64);
                    if let Some(g) = got {
                        o = g;
                    }
                }
            }
            if c.cur_cursor() != o {
                return Err(format!("step {} {op:?}: cur_cursor is {}, not {o}", i + 1, c.cur_cursor()));
            }
        }
        Ok(())
    }
}

fn histories(n_ops: &[Op], depth: u32) -> u64 {
    (n_ops.len() as u64).pow(depth)
}

fn all(t: &Tables, s: &[char], depth: u32, drops: bool, w: &mut W) {
    let x = text(s);
    let offs: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
    let mut ops = vec![Op::Next, Op::Prev, Op::Is];
    for o in &offs {
        if drops {
            ops.extend([Op::DropNext(*o), Op::DropPrev(*o), Op::DropIs(*o)]);
        } else {
            ops.push(Op::Set(*o));
        }
    }
    let n = s.len();
    for ext in [true, false] {
        let bounds = t.graphemes(s, ext);
        for m in 0..1u32 << (n - 1) {
            let mut cuts = vec![0];
            cuts.extend((1..n).filter(|k| m >> (k - 1) & 1 == 1).map(|k| offs[k]));
            cuts.push(x.len());
            for (whole, probe) in [(false, false), (true, false), (false, true)] {
                if (whole || probe) && m == 0 {
                    continue;
                }
                let ctx = Ctx { s: &x, cuts: &cuts, bounds: &bounds, whole, probe, around: (0, 0) };
                for at in &offs {
                    for h in 0..histories(&ops, depth) {
                        let mut v = vec![];
                        word_k(ops.len() as u64, depth, h, &mut v);
                        let hist: Vec<Op> = v.iter().map(|k| ops[*k as usize]).collect();
                        w.state();
                        // A drop that is not followed by a query tells nothing.
                        if drops && !matches!(hist[depth as usize - 1], Op::Next | Op::Prev | Op::Is) {
                            continue;
                        }
                        let r = guard(|| ctx.run(ext, *at, &hist, w)).unwrap_or_else(|e| Err(format!("panic: {e}")));
                        w.trace();
                        if let Err(e) = r {
                            w.fail(
                                format!("{} {} cuts={cuts:?} whole={whole} probe={probe} at={at} {hist:?}", if ext { "extended" } else { "legacy" }, esc(&x)),
                                e,
                            );
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Cut before every character, answers at every offset.
fn few(t: &Tables, s: &[char], w: &mut W) {
    let x = text(s);
    let cuts: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
    for ext in [true, false] {
        let bounds = t.graphemes(s, ext);
        let ctx = Ctx { s: &x, cuts: &cuts, bounds: &bounds, whole: false, probe: false, around: (0, 0) };
        for at in &cuts {
            for op in [Op::Next, Op::Prev, Op::Is] {
                w.state();
                let r = guard(|| ctx.run(ext, *at, &[op], w)).unwrap_or_else(|e| Err(format!("panic: {e}")));
                w.trace();
                if let Err(e) = r {
                    w.fail(format!("extended={ext} {} cuts={cuts:?} at={at} {op:?}", esc(&x)), e);
                    return;
                }
            }
        }
    }
}

pub fn s02(c: &mut Check) {
    let t = Tables::load();
    const CORE: &[char] = &['a', '\u{301}', '\u{200d}', '\u{1f1e6}', '\u{261d}', '\u{1f3fb}', '\u{1f466}', '\u{600}', '\u{903}', '\n', '\u{1100}'];
    let n = CORE.len() as u64;
    let m = GS.len() as u64;
    let len = by(3, 4);
    c.family("one query", "every word over the 18 classes to length 3 (thorough 4), every chunking, both context sizes, every start, one query of every kind", words_upto(m, len) - 1, move |i, w| {
        let mut v = vec![];
        word_at(m, i + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| GS[*k as usize].2).collect();
        all(t, &s, 1, false, w)
    });
    let len = by(4, 5);
    c.family("two queries", "every word over 11 classes to length 4 (thorough 5), every chunking, start and pair of queries or repositionings", words_upto(n, len) - 1, move |i, w| {
        let mut v = vec![];
        word_at(n, i + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| CORE[*k as usize]).collect();
        all(t, &s, 2, false, w)
    });
    let len = by(3, 4);
    c.family("abandoned queries", "every word over 11 classes to length 3 (thorough 4): queries given up at their first request, repositioning, then a query", words_upto(n, len) - 1, move |i, w| {
        let mut v = vec![];
        word_at(n, i + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| CORE[*k as usize]).collect();
        all(t, &s, 2, true, w)
    });
    c.family("three queries", "every word over 11 classes to length 2 (thorough 3), every history of 3 (thorough 4)", words_upto(n, by(2, 3)) - 1, move |i, w| {
        let mut v = vec![];
        word_at(n, i + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| CORE[*k as usize]).collect();
        all(t, &s, by(3, 4), false, w)
    });
    let len = by(6, 8);
    c.family("walks", "every word over 5 classes with look-behind to length 6 (thorough 8), every chunking: walks to the end and back", words_upto(5, len) - 1, move |i, w| {
        let mut v = vec![];
        word_at(5, i + 1, &mut v);
        let s: Vec<char> = v.iter().map(|k| ['a', '\u{1f1e6}', '\u{301}', '\u{261d}', '\u{1f3fb}'][*k as usize]).collect();
        let x = text(&s);
        let offs: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
        let bounds = t.graphemes(&s, true);
        for m in 0..1u32 << (s.len() - 1) {
            let mut cuts = vec![0];
            cuts.extend((1..s.len()).filter(|k| m >> (k - 1) & 1 == 1).map(|k| offs[k]));
            cuts.push(x.len());
            let ctx = Ctx { s: &x, cuts: &cuts, bounds: &bounds, whole: false, probe: false, around: (0, 0) };
            let k = bounds.len();
            let there: Vec<Op> = std::iter::repeat(Op::Next).take(k).chain(std::iter::repeat(Op::Prev).take(k)).chain([Op::Next]).collect();
            let back: Vec<Op> = std::iter::repeat(Op::Prev).take(k).chain(std::iter::repeat(Op::Next).take(k)).chain([Op::Prev]).collect();
            for (at, h) in [(0, &there), (x.len(), &back)] {
                w.state();
                let r = guard(|| ctx.run(true, at, h, w)).unwrap_or_else(|e| Err(format!("panic: {e}")));
                w.trace();
                if let Err(e) = r {
                    w.fail(format!("{} cuts={cuts:?} walk from {at}", esc(&x)), e);
                }
            }
        }
    });
    let bases: &'static [usize] = &[253, 65_533, (1 << 31) - 3, (1 << 32) - 5, 1 << 40, usize::MAX / 2, usize::MAX - 64];
    let len = by(3, 4);
    c.family("far", &format!("the text has {bases:?} bytes before the window that is given, and 0, 7 or 2^33 after it: every word over the 18 classes to length {len} between line feeds, every chunking, both context sizes, every start, one query of every kind and walks to the end and back"), words_upto(m, len), move |i, w| {
        let mut v = vec![];
        word_at(m, i, &mut v);
        let mut s = vec!['a', '\n'];
        s.extend(v.iter().map(|k| GS[*k as usize].2));
        s.extend(['\n', 'a']);
        let n = s.len();
        let x = text(&s);
        let offs: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
        let starts = &offs[2..n - 1];
        for ext in [true, false] {
            let bounds = t.graphemes(&s, ext);
            let inner = bounds.iter().filter(|b| **b > 2 && **b <= offs[n - 1]).count();
            for base in bases {
                for tail in [0, 7, 1 << 33] {
                    if base.checked_add(tail + x.len()).is_none() {
                        continue;
                    }
                    for mask in 0..1u32 << (n - 1) {
                        let mut cuts = vec![0];
                        cuts.extend((1..n).filter(|k| mask >> (k - 1) & 1 == 1).map(|k| offs[k]));
                        cuts.push(x.len());
                        for whole in [false, true] {
                            let ctx = Ctx { s: &x, cuts: &cuts, bounds: &bounds, whole, probe: false, around: (*base, tail) };
                            let mut hs: Vec<(usize, Vec<Op>)> = vec![];
                            for at in starts {
                                for op in [Op::Next, Op::Prev, Op::Is] {
                                    hs.push((*at, vec![op]));
                                }
                            }
                            hs.push((2, [vec![Op::Next; inner], vec![Op::Prev; inner]].concat()));
                            for (at, h) in hs {
                                w.state();
                                let r = guard(|| ctx.run(ext, at, &h, w)).unwrap_or_else(|e| Err(format!("panic: {e}")));
                                w.trace();
                                if let Err(e) = r {
                                    w.fail(format!("extended={ext} {} after {base} bytes, before {tail}, cuts={cuts:?} whole={whole} at={at} {h:?}", esc(&x)), e);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    c.family("every character", "every scalar value alone and beside one character of 8 classes, every chunking, both context sizes, every start, one query of every kind", N_SCALARS, move |i, w| {
        let x = scalar_at(i);
        all(t, &[x], 1, false, w);
        for y in ['a', '\u{301}', '\u{1f1e6}', '\u{600}', '\u{200d}', '\u{1f3fb}', '\u{261d}', '\u{ac00}'] {
            few(t, &[y, x], w);
            few(t, &[x, y], w);
        }
        few(t, &['\u{1f1e6}', x, '\u{1f1e6}'], w);
        few(t, &['\u{1f466}', x, '\u{1f3fb}'], w);
    });
    let ends = &['a', '\u{1f1e6}', '\u{301}', '\u{261d}', '\u{1f3fb}', '\u{200d}', '\u{600}'];
    let k = ends.len() as u64;
    let nv = k + k * k;
    let walks = move |s: &[char], w: &mut W| {
        let x = text(s);
        let offs: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
        for ext in [true, false] {
            let bounds = t.graphemes(s, ext);
            for size in [1, 3, 64] {
                let mut cuts: Vec<usize> = (0..s.len()).step_by(size).map(|k| offs[k]).collect();
                cuts.push(x.len());
                let ctx = Ctx { s: &x, cuts: &cuts, bounds: &bounds, whole: false, probe: false, around: (0, 0) };
                let k = bounds.len();
                let walk = |a, b| std::iter::repeat(a).take(k).chain(std::iter::repeat(b).take(k)).chain([a]).collect();
                let mut todo: Vec<(usize, Vec<Op>)> = vec![(0, walk(Op::Next, Op::Prev)), (x.len(), walk(Op::Prev, Op::Next))];
                for at in offs[..5.min(offs.len())].iter().chain(&offs[offs.len().saturating_sub(5)..]) {
                    todo.extend([Op::Is, Op::Next, Op::Prev].map(|o| (*at, vec![o])));
                }
                for (at, h) in todo {
                    w.state();
                    let r = guard(|| ctx.run(ext, at, &h, w)).unwrap_or_else(|e| Err(format!("panic: {e}")));
                    w.trace();
                    if let Err(e) = r {
                        w.fail(format!("{} extended={ext} chunks of {size} from {at}", esc(&x)), e);
                    }
                }
            }
        }
    };
    let lens: &'static [usize] = by(&[17, 64, 130], &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 300]);
    c.family("pumped walks", &format!("u v^n w: u, w and v of one or two over 7 classes, {lens:?} characters, chunks of 1, 3 and 64 characters: walks to the end and back, and one query of every kind within 4 of either end"), k * k * nv, move |i, w| {
        let (u, e, v) = (i % k, i / k % k, i / k / k);
        let v: Vec<char> = if v < k { vec![ends[v as usize]] } else { vec![ends[((v - k) % k) as usize], ends[((v - k) / k) as usize]] };
        for n in lens {
            let mut s = vec![ends[u as usize]];
            for _ in 0..n / v.len() {
                s.extend(&v);
            }
            s.push(ends[e as usize]);
            walks(&s, w)
        }
    });
    let all = move |v: Vec<u8>| v.iter().map(|k| ends[*k as usize]).collect::<Vec<char>>();
    let lens: &'static [usize] = by(&[70], &[33, 70, 130, 260]);
    c.family("stretched walks", &format!("every word of 4 over 7 classes {STRETCHES}, n of {lens:?}: as above"), stretched_size(k), move |i, w| {
        for n in lens {
            walks(&all(stretched(k, i, *n)), w)
        }
    });
    c.family("spread walks", &format!("every word of 3 over 7 classes with n of one class between each two, n of {lens:?}: as above"), spread_size(k, 3, 7), move |i, w| {
        for n in lens {
            walks(&all(spread(k, 3, i, &[0, 1, 2, 3, 4, 5, 6], *n)), w)
        }
    });
}
