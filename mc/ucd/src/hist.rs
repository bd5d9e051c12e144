//! H01: answers depend on the question alone, whatever was asked before, by whom, and what else is under way.
use crate::*;
use std::cell::RefCell;
use std::sync::mpsc::channel;
use unic::bidi::{BidiInfo, Level};
use unic::idna::{to_ascii, to_unicode, Flags};
use unic::normal::StrNormalForm;
use unic::segment::{GraphemeCursor, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};

/// Texts of equal length, with a common beginning, or alike in other ways, answered differently.
const T: &[&str] = &[
    "",
    "a\u{301}",
    "a\u{300}",
    "\u{301}a",
    "\u{1e9}",
    "\u{e9}a",
    "\u{5d0}1 a",
    "a 1\u{5d0}",
    "1\u{5d0} a",
    "\u{1f468}\u{200d}\u{1f469}",
    "\u{1f468}\u{200c}\u{1f469}",
    "\u{1f1e6}\u{1f1e7}\u{1f1e8}",
    "\u{1f1e6}\u{1f1e7}a\u{301}b",
    "\u{d55c}\u{ae00}",
    "\u{1112}\u{1161}",
    "\u{d558}\u{11ab}",
    "can't",
    "can-t",
    "3.14a",
    "3. 4a",
    "\r\nab",
    "\n\rab",
    "\u{2067}a\u{2069}\u{5d0}b",
    "\u{202e}a\u{202c}\u{5d0}b",
    "xn--bcher-kva.de",
    "xn--bcher-kvb.de",
    "b\u{fc}cher.de",
    "b\u{fb}cher.de",
    "fa\u{df}.de",
    "fa\u{3c2}.de",
    "\u{5d0}.a-",
    "\u{fdfa}\u{327}\u{301}",
    "\u{fdfa}\u{301}\u{327}",
    "bcher-kva",
];

type Op = (&'static str, fn(&str) -> String);
fn flags(i: u8) -> Flags {
    Flags { use_std3_ascii_rules: i & 1 != 0, transitional_processing: i & 2 != 0, verify_dns_length: i & 4 != 0 }
}
fn info(s: &str, base: Option<Level>) -> String {
    let b = BidiInfo::new(s, base);
    let mut out = format!("{:?} {} {}", b.levels.iter().map(|l| l.number()).collect::<Vec<_>>(), b.has_rtl(), b);
    for p in &b.paragraphs {
        let (levels, runs) = b.visual_runs(p, p.range.clone());
        let levels: Vec<u8> = levels.iter().map(|l| l.number()).collect();
        let _ = write!(out, " {:?} {} {:?} {:?} {:?}", p.range, p.level.number(), b.reorder_line(p, p.range.clone()), levels, runs);
    }
    out
}
const OPS: &[Op] = &[
    ("bidi, base from the text", |s| info(s, None)),
    ("bidi, left to right", |s| info(s, Some(Level::ltr()))),
    ("bidi, right to left", |s| info(s, Some(Level::rtl()))),
    ("nfc", |s| s.nfc().collect()),
    ("nfd", |s| s.nfd().collect()),
    ("nfkc", |s| s.nfkc().collect()),
    ("nfkd", |s| s.nfkd().collect()),
    ("graphemes", |s| format!("{:?}", Graphemes::new(s).collect::<Vec<_>>())),
    ("graphemes, backwards", |s| format!("{:?}", Graphemes::new(s).rev().collect::<Vec<_>>())),
    ("legacy graphemes", |s| format!("{:?}", Graphemes::new_legacy(s).collect::<Vec<_>>())),
    ("grapheme cursor", |s| {
        (0..=s.len()).filter(|i| s.is_char_boundary(*i)).map(|i| format!("{:?} ", GraphemeCursor::new(i, s.len()).is_boundary(s, 0))).collect()
    }),
    ("word bounds", |s| format!("{:?}", WordBounds::new(s).collect::<Vec<_>>())),
    ("word bounds, backwards", |s| format!("{:?}", WordBounds::new(s).rev().collect::<Vec<_>>())),
    ("words", |s| format!("{:?}", Words::new(s, |w| w.contains(char::is_alphanumeric)).collect::<Vec<_>>())),
    ("to ascii", |s| format!("{:?}", to_ascii(s, flags(0)))),
    ("to ascii, strict", |s| format!("{:?}", to_ascii(s, flags(5)))),
    ("to ascii, transitional", |s| format!("{:?}", to_ascii(s, flags(2)))),
    ("to unicode", |s| format!("{:?}", to_unicode(s, flags(0)))),
    ("to unicode, strict", |s| format!("{:?}", to_unicode(s, flags(1)))),
    ("punycode encode", |s| format!("{:?}", unic_idna_punycode::encode_str(s))),
    ("punycode decode", |s| format!("{:?}", unic_idna_punycode::decode_to_string(s))),
];

type Iter = Box<dyn Iterator<Item = String>>;
type Kind = (&'static str, fn(&'static str) -> Iter);
fn char_range(s: &str) -> unic_char_range::CharRange {
    let c = s.chars().next().unwrap_or('\u{d7fe}');
    unic_char_range::CharRange::closed(c, char::from_u32(c as u32 + 9).unwrap_or('\u{e002}'))
}
const KINDS: &[Kind] = &[
    ("nfc", |s| Box::new(s.nfc().map(String::from))),
    ("nfd", |s| Box::new(s.nfd().map(String::from))),
    ("nfkc", |s| Box::new(s.nfkc().map(String::from))),
    ("nfkd", |s| Box::new(s.nfkd().map(String::from))),
    ("graphemes", |s| Box::new(Graphemes::new(s).map(String::from))),
    ("legacy graphemes, backwards", |s| Box::new(Graphemes::new_legacy(s).rev().map(String::from))),
    ("grapheme indices, from both ends", |s| {
        let (mut it, mut back) = (GraphemeIndices::new(s), true);
        Box::new(std::iter::from_fn(move || {
            back = !back;
            (if back { it.next_back() } else { it.next() }).map(|x| format!("{x:?}"))
        }))
    }),
    ("grapheme cursor", |s| {
        let mut c = GraphemeCursor::new(0, s.len());
        Box::new(std::iter::from_fn(move || match c.next_boundary(s, 0) {
            Ok(None) => None,
            r => Some(format!("{r:?}")),
        }))
    }),
    ("word bounds", |s| Box::new(WordBounds::new(s).map(String::from))),
    ("word bounds, backwards", |s| Box::new(WordBounds::new(s).rev().map(String::from))),
    ("word bound indices, from both ends", |s| {
        let (mut it, mut back) = (WordBoundIndices::new(s), true);
        Box::new(std::iter::from_fn(move || {
            back = !back;
            (if back { it.next_back() } else { it.next() }).map(|x| format!("{x:?}"))
        }))
    }),
    ("words, backwards", |s| Box::new(Words::new(s, |w| w.contains(char::is_alphanumeric)).rev().map(String::from))),
    ("characters", |s| Box::new(char_range(s).iter().map(String::from))),
    ("characters, backwards", |s| Box::new(char_range(s).iter().rev().map(String::from))),
    ("blocks", |_| Box::new(unic_ucd_block::BlockIter::new().map(|b| b.name.to_string()))),
];
/// Texts for iterators under way at the same time.
const LIVE: &[&str] = &[
    "a\u{301}\u{327}b\u{344}",
    "a\u{327}\u{301}b\u{344}",
    "\u{1112}\u{1161}\u{11ab}\u{fdfa}",
    "\u{1f468}\u{200d}\u{1f469} \u{1f1e6}\u{1f1e7}\u{1f1e8}",
    "can't 3.14",
    "can-t 3 14",
];
const STEPS: usize = 4;

/// What one question answers, or one iterator gives, when nothing else happened in the process.
pub fn ask(n: usize) {
    if n < OPS.len() * T.len() {
        return print!("{}", OPS[n / T.len()].1(T[n % T.len()]));
    }
    let n = n - OPS.len() * T.len();
    let it = KINDS[n / LIVE.len()].1(LIVE[n % LIVE.len()]);
    for x in it.take(STEPS) {
        print!("{x}\x1f");
    }
}
fn fresh(n: usize) -> Vec<String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    let exe = std::env::current_exe().unwrap();
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![String::new(); n]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                let r = std::process::Command::new(&exe).args(["H01", "--ask", &i.to_string()]).stderr(std::process::Stdio::null()).output().expect("cannot start a process");
                let text = String::from_utf8_lossy(&r.stdout).into_owned();
                out.lock().unwrap()[i] = if r.status.success() { text } else { format!("{text}DIED") };
            });
        }
    });
    out.into_inner().unwrap()
}

thread_local! {
    /// Every text is asked about at the same place in memory.
    static PLACE: RefCell<String> = const { RefCell::new(String::new()) };
}
fn here(op: &Op, s: &str) -> String {
    PLACE.with(|p| {
        let mut p = p.borrow_mut();
        p.clear();
        p.reserve(64);
        p.push_str(s);
        op.1(&p)
    })
}

struct Lookup {
    acc: Acc,
    table: std::sync::Arc<data::RefTable>,
    chars: Vec<char>,
}
impl Lookup {
    fn wrong(&self, c: char) -> Option<String> {
        let mut s = String::new();
        (self.acc.get)(c, &mut s);
        let want = (self.acc.want)(c, self.table.get(c));
        (s != want).then(|| format!("implementation {s:?}, model {want:?}"))
    }
}
/// Characters with each value, and others that a lossy key would take them for.
fn lookups(limit: usize) -> Vec<Lookup> {
    let mut tables: std::collections::HashMap<&str, std::sync::Arc<data::RefTable>> = Default::default();
    let mut v = vec![];
    for p in ["U01", "U02", "U03", "U04", "U05", "U06", "U07", "U08", "U09", "U10", "U11", "I02"] {
        for acc in props::accessors(p) {
            let t = tables.entry(acc.table).or_insert_with(|| std::sync::Arc::new(data::table(&format!("{}.txt", acc.table), acc.default))).clone();
            let (mut seen, mut firsts) = (std::collections::HashMap::new(), vec![]);
            let mut last = u16::MAX;
            for i in 0..N_SCALARS {
                let c = scalar_at(i);
                let id = t.id(c);
                if id != last && !nonchar(c) {
                    let n = seen.entry(id).or_insert(0);
                    if *n < 12 {
                        *n += 1;
                        firsts.push(c);
                    }
                }
                last = id;
            }
            let step = firsts.len().div_ceil(limit / 5).max(1);
            let mut chars = vec![];
            for c in firsts.into_iter().step_by(step) {
                for d in [0, 1, 0x100, 0x1000, 0x10000] {
                    if let Some(c) = char::from_u32(c as u32 + d) {
                        if !nonchar(c) && !chars.contains(&c) {
                            chars.push(c);
                        }
                    }
                }
            }
            v.push(Lookup { acc, table: t, chars });
        }
    }
    v
}

pub fn all(c: &mut Check) {
    let nq = OPS.len() * T.len();
    let answers: &'static [String] = Box::leak(fresh(nq + KINDS.len() * LIVE.len()).into_boxed_slice());
    let lookups: &'static [Lookup] = Box::leak(lookups(by(250, 1000)).into_boxed_slice());
    let cases: &'static [(usize, usize)] =
        Box::leak((0..lookups.len()).flat_map(|l| (0..lookups[l].chars.len()).map(move |i| (l, i))).collect::<Vec<_>>().into_boxed_slice());
    c.family(
        "one lookup",
        &format!("{} ways to look a character up: every ordered pair of characters, of up to 250 (thorough 1000) with each value or alike in their low bits: one, the other, the one again", lookups.len()),
        cases.len() as u64,
        move |i, w| {
            let (l, a) = cases[i as usize];
            let l = &lookups[l];
            let a = l.chars[a];
            for b in &l.chars {
                w.state();
                w.steps(2);
                let first = l.wrong(*b);
                if let Some(e) = first.or_else(|| l.wrong(a)) {
                    return w.fail(format!("{} of U+{:04X} and U+{:04X} in turn", l.acc.name, a as u32, *b as u32), e);
                }
            }
            w.trace();
        },
    );
    // Every question of any kind after every other.
    let asks: &'static [(usize, char)] = Box::leak(
        (0..lookups.len()).flat_map(|l| [1, lookups[l].chars.len() / 2].map(|k| (l, lookups[l].chars[k.min(lookups[l].chars.len() - 1)]))).collect::<Vec<_>>().into_boxed_slice(),
    );
    let total = nq + asks.len();
    let name = move |q: usize| {
        if q < nq {
            format!("{} of {:?}", OPS[q / T.len()].0, T[q % T.len()])
        } else {
            let (l, c) = asks[q - nq];
            format!("{} of U+{:04X}", lookups[l].acc.name, c as u32)
        }
    };
    let wrong = move |q: usize| {
        if q < nq {
            let got = here(&OPS[q / T.len()], T[q % T.len()]);
            (got != answers[q]).then(|| format!("in this history {got:?}, in a process of its own {:?}", answers[q]))
        } else {
            lookups[asks[q - nq].0].wrong(asks[q - nq].1)
        }
    };
    c.family(
        "every question",
        &format!("every ordered pair of {total} questions ({} operations on {} texts, {} lookups): one, the other, the one again", OPS.len(), T.len(), asks.len()),
        total as u64,
        move |i, w| {
            let a = i as usize;
            if a < nq {
                w.outcome(hash_bytes(answers[a].as_bytes()));
            }
            for b in 0..total {
                w.state();
                w.steps(2);
                if let Some(e) = wrong(b).or_else(|| wrong(a)) {
                    return w.fail(format!("{}; {}; {}", name(a), name(b), name(a)), e);
                }
            }
            w.trace();
        },
    );
    let nt = T.len();
    c.family(
        "three in a row",
        &format!("each of {} operations on every three of {nt} texts in turn, at one place in memory", OPS.len()),
        (OPS.len() * nt) as u64,
        move |i, w| {
            let (o, a) = (i as usize / nt, i as usize % nt);
            for x in 0..nt * nt {
                w.state();
                w.steps(3);
                for t in [a, x / nt, x % nt] {
                    if let Some(e) = wrong(o * nt + t) {
                        return w.fail(format!("{} of {:?}, {:?}, {:?}", OPS[o].0, T[a], T[x / nt], T[x % nt]), e);
                    }
                }
            }
            w.trace();
        },
    );
    // Two threads that take turns: each asks both questions.
    c.family(
        "two threads",
        &format!("every ordered pair of the {total} questions, asked by two threads taking turns: a by one, b by the other, then b by the first and a by the other"),
        total as u64,
        move |i, w| {
            let a = i as usize;
            let (go, todo) = channel::<usize>();
            let (tell, told) = channel::<Option<String>>();
            std::thread::scope(|s| {
                s.spawn(move || {
                    for q in todo {
                        let r = guard(|| wrong(q)).unwrap_or_else(|p| Some(format!("{p:?}")));
                        if tell.send(r).is_err() {
                            break;
                        }
                    }
                });
                for b in 0..total {
                    w.state();
                    w.steps(4);
                    let mut r = vec![wrong(a)];
                    go.send(b).unwrap();
                    r.push(told.recv().unwrap());
                    r.push(wrong(b));
                    go.send(a).unwrap();
                    r.push(told.recv().unwrap());
                    if let Some(e) = r.into_iter().flatten().next() {
                        w.fail(format!("{}; {}; by two threads in turn", name(a), name(b)), e);
                        break;
                    }
                }
                drop(go);
            });
            w.trace();
        },
    );
    let nl = KINDS.len() * LIVE.len();
    c.family(
        "under way together",
        &format!("every pair of {nl} iterators ({} kinds over {} texts): every way to interleave {STEPS} steps of each", KINDS.len(), LIVE.len()),
        (nl * nl) as u64,
        move |i, w| {
            let which = [i as usize / nl, i as usize % nl];
            let want = which.map(|n| answers[nq + n].as_str());
            for order in (0u32..1 << (2 * STEPS)).filter(|o| o.count_ones() as usize == STEPS) {
                w.state();
                let mut its = which.map(|n| KINDS[n / LIVE.len()].1(LIVE[n % LIVE.len()]));
                let mut got = [String::new(), String::new()];
                let mut done = [false; 2];
                for k in 0..2 * STEPS {
                    let x = (order >> k & 1) as usize;
                    w.steps(1);
                    // `take` in `ask` does not call an iterator that has ended again.
                    if done[x] {
                        continue;
                    }
                    match its[x].next() {
                        Some(s) => {
                            got[x].push_str(&s);
                            got[x].push('\x1f');
                        }
                        None => done[x] = true,
                    }
                }
                for x in 0..2 {
                    if got[x] != want[x] {
                        let n = |n: usize| format!("{} of {:?}", KINDS[n / LIVE.len()].0, LIVE[n % LIVE.len()]);
                        return w.fail(format!("{} with {}, in the order {order:08b}", n(which[x]), n(which[1 - x])), format!("gives {:?}, alone {:?}", got[x], want[x]));
                    }
                }
            }
            w.trace();
        },
    );
}
