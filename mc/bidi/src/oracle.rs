//! UAX #9 (revision for Unicode 10.0), written rule by rule, one pass per rule, over an array of
//! one Bidi_Class per character.  Nothing here is shared with the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[allow(clippy::upper_case_acronyms)]
pub enum C {
    L, R, AL, EN, ES, ET, AN, CS, NSM, BN, B, S, WS, ON,
    LRE, LRO, RLE, RLO, PDF, LRI, RLI, FSI, PDI,
}
use C::*;

pub const ALL: [C; 23] = [
    L, R, AL, EN, ES, ET, AN, CS, NSM, BN, B, S, WS, ON, LRE, LRO, RLE, RLO, PDF, LRI, RLI, FSI,
    PDI,
];

pub fn is_isolate_init(c: C) -> bool {
    matches!(c, LRI | RLI | FSI)
}
pub fn removed(c: C) -> bool {
    matches!(c, LRE | LRO | RLE | RLO | PDF | BN)
}

/// BD9: index of the PDI matching the isolate initiator at `i`, if any, within `t`.
pub fn matching_pdi(t: &[C], i: usize) -> Option<usize> {
    let mut depth = 1;
    for (k, c) in t.iter().enumerate().skip(i + 1) {
        if is_isolate_init(*c) {
            depth += 1;
        } else if *c == PDI {
            depth -= 1;
            if depth == 0 {
                return Some(k);
            }
        }
    }
    None
}

/// P2: first strong class, skipping isolates; None when there is none.
pub fn first_strong(t: &[C]) -> Option<C> {
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            L | R | AL => return Some(t[i]),
            LRI | RLI | FSI => match matching_pdi(t, i) {
                Some(k) => i = k,
                None => return None,
            },
            _ => {}
        }
        i += 1;
    }
    None
}

/// P1: paragraphs as half-open character ranges.
pub fn paragraphs(t: &[C]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, c) in t.iter().enumerate() {
        if *c == B {
            v.push((s, i + 1));
            s = i + 1;
        }
    }
    if s < t.len() {
        v.push((s, t.len()));
    }
    v
}

/// P2, P3 (or the caller's default).
pub fn para_level(t: &[C], default: Option<u8>) -> u8 {
    default.unwrap_or(match first_strong(t) {
        Some(R) | Some(AL) => 1,
        _ => 0,
    })
}

/// X5c: the effective class of an FSI at `i`.
pub fn fsi_class(t: &[C], i: usize) -> C {
    let end = matching_pdi(t, i).unwrap_or(t.len());
    match first_strong(&t[i + 1..end]) {
        Some(R) | Some(AL) => RLI,
        _ => LRI,
    }
}

const MAX_DEPTH: u8 = 125;

/// X1-X8: explicit levels and overridden classes.
pub fn explicit(t: &[C], para: u8) -> (Vec<u8>, Vec<C>) {
    #[derive(Clone, Copy)]
    struct E {
        level: u8,
        over: Option<C>,
        isolate: bool,
    }
    let mut stack = vec![E { level: para, over: None, isolate: false }];
    let (mut ov_iso, mut ov_emb, mut valid_iso) = (0u32, 0u32, 0u32);
    let mut lv = vec![para; t.len()];
    let mut cl = t.to_vec();
    let odd = |l: u8| if l % 2 == 1 { l + 2 } else { l + 1 };
    let even = |l: u8| if l % 2 == 1 { l + 1 } else { l + 2 };
    for i in 0..t.len() {
        let last = *stack.last().unwrap();
        match t[i] {
            // X2-X5
            RLE | LRE | RLO | LRO => {
                let nl = if matches!(t[i], RLE | RLO) { odd(last.level) } else { even(last.level) };
                if nl <= MAX_DEPTH && ov_iso == 0 && ov_emb == 0 {
                    stack.push(E {
                        level: nl,
                        over: match t[i] {
                            RLO => Some(R),
                            LRO => Some(L),
                            _ => None,
                        },
                        isolate: false,
                    });
                } else if ov_iso == 0 {
                    ov_emb += 1;
                }
            }
            // X5a-X5c
            RLI | LRI | FSI => {
                lv[i] = last.level;
                if let Some(o) = last.over {
                    cl[i] = o;
                }
                let k = if t[i] == FSI { fsi_class(t, i) } else { t[i] };
                let nl = if k == RLI { odd(last.level) } else { even(last.level) };
                if nl <= MAX_DEPTH && ov_iso == 0 && ov_emb == 0 {
                    valid_iso += 1;
                    stack.push(E { level: nl, over: None, isolate: true });
                } else {
                    ov_iso += 1;
                }
            }
            // X6a
            PDI => {
                if ov_iso > 0 {
                    ov_iso -= 1;
                } else if valid_iso == 0 {
                } else {
                    ov_emb = 0;
                    while !stack.last().unwrap().isolate {
                        stack.pop();
                    }
                    stack.pop();
                    valid_iso -= 1;
                }
                let last = *stack.last().unwrap();
                lv[i] = last.level;
                if let Some(o) = last.over {
                    cl[i] = o;
                }
            }
            // X7
            PDF => {
                if ov_iso > 0 {
                } else if ov_emb > 0 {
                    ov_emb -= 1;
                } else if !last.isolate && stack.len() >= 2 {
                    stack.pop();
                }
            }
            // X8
            B => lv[i] = para,
            BN => {}
            // X6
            _ => {
                lv[i] = last.level;
                if let Some(o) = last.over {
                    cl[i] = o;
                }
            }
        }
    }
    (lv, cl)
}

/// Levels of one paragraph. Characters removed by X9 take the level of the character before them
/// (the paragraph level at the start), as the library documents.
/// `brackets[i]` is Some((is_open, id)) for a paired bracket; used only with `n0`.
pub fn levels(t: &[C], para: u8, n0: Option<&[Option<(bool, u32)>]>) -> Vec<u8> {
    let (xl, xc) = explicit(t, para);
    // X9
    let idx: Vec<usize> = (0..t.len()).filter(|i| !removed(t[*i])).collect();
    let n = idx.len();
    let orig: Vec<C> = idx.iter().map(|i| t[*i]).collect();
    let mut cls: Vec<C> = idx.iter().map(|i| xc[*i]).collect();
    let lev: Vec<u8> = idx.iter().map(|i| xl[*i]).collect();
    // BD7 level runs
    let mut runs: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        match runs.last_mut() {
            Some(r) if lev[r.0] == lev[i] => r.1 = i + 1,
            _ => runs.push((i, i + 1)),
        }
    }
    // BD13
    let run_starting_at = |p: usize| runs.iter().position(|r| r.0 == p);
    let mut matched_pdi = vec![false; n];
    let mut mate = vec![None; n];
    for i in 0..n {
        if is_isolate_init(orig[i]) {
            if let Some(k) = matching_pdi(&orig, i) {
                matched_pdi[k] = true;
                mate[i] = Some(k);
            }
        }
    }
    let mut out: Vec<u8> = lev.clone();
    for r in &runs {
        if orig[r.0] == PDI && matched_pdi[r.0] {
            continue;
        }
        let mut seq: Vec<usize> = (r.0..r.1).collect();
        loop {
            let last = *seq.last().unwrap();
            match mate[last] {
                Some(k) => {
                    let nr = runs[run_starting_at(k).expect("matching PDI starts a run")];
                    seq.extend(nr.0..nr.1);
                }
                None => break,
            }
        }
        // X10 sos, eos
        let level = lev[seq[0]];
        let first = seq[0];
        let last = *seq.last().unwrap();
        let prev = if first == 0 { para } else { lev[first - 1] };
        let next = if last + 1 == n || is_isolate_init(orig[last]) { para } else { lev[last + 1] };
        let dir = |l: u8| if l % 2 == 1 { R } else { L };
        let sos = dir(level.max(prev));
        let eos = dir(level.max(next));
        let e = dir(level);
        let m = seq.len();
        let o: Vec<C> = seq.iter().map(|i| orig[*i]).collect();
        let mut c: Vec<C> = seq.iter().map(|i| cls[*i]).collect();
        // W1
        for k in 0..m {
            if c[k] == NSM {
                c[k] = if k == 0 {
                    sos
                } else if is_isolate_init(c[k - 1]) || c[k - 1] == PDI {
                    ON
                } else {
                    c[k - 1]
                };
            }
        }
        // W2
        for k in 0..m {
            if c[k] == EN {
                let s = (0..k).rev().map(|j| c[j]).find(|x| matches!(x, L | R | AL)).unwrap_or(sos);
                if s == AL {
                    c[k] = AN;
                }
            }
        }
        // W3
        for x in c.iter_mut() {
            if *x == AL {
                *x = R;
            }
        }
        // W4
        for k in 1..m.saturating_sub(1) {
            if c[k] == ES && c[k - 1] == EN && c[k + 1] == EN {
                c[k] = EN;
            } else if c[k] == CS && c[k - 1] == EN && c[k + 1] == EN {
                c[k] = EN;
            } else if c[k] == CS && c[k - 1] == AN && c[k + 1] == AN {
                c[k] = AN;
            }
        }
        // W5
        let mut k = 0;
        while k < m {
            if c[k] == ET {
                let mut j = k;
                while j < m && c[j] == ET {
                    j += 1;
                }
                if (k > 0 && c[k - 1] == EN) || (j < m && c[j] == EN) {
                    for x in &mut c[k..j] {
                        *x = EN;
                    }
                }
                k = j;
            } else {
                k += 1;
            }
        }
        // W6
        for x in c.iter_mut() {
            if matches!(x, ES | ET | CS) {
                *x = ON;
            }
        }
        // W7
        for k in 0..m {
            if c[k] == EN {
                let s = (0..k).rev().map(|j| c[j]).find(|x| matches!(x, L | R)).unwrap_or(sos);
                if s == L {
                    c[k] = L;
                }
            }
        }
        // N0
        if let Some(br) = n0 {
            let b: Vec<Option<(bool, u32)>> = seq.iter().map(|i| br[idx[*i]]).collect();
            let strong = |x: C| match x {
                L => Some(L),
                R | EN | AN => Some(R),
                _ => None,
            };
            let mut stack: Vec<(u32, usize)> = vec![];
            let mut pairs = vec![];
            for k in 0..m {
                if c[k] != ON {
                    continue;
                }
                match b[k] {
                    Some((true, id)) => {
                        if stack.len() == 63 {
                            pairs.clear();
                            break;
                        }
                        stack.push((id, k));
                    }
                    Some((false, id)) => {
                        if let Some(p) = stack.iter().rposition(|s| s.0 == id) {
                            pairs.push((stack[p].1, k));
                            stack.truncate(p);
                        }
                    }
                    None => {}
                }
            }
            pairs.sort();
            for (a, z) in pairs {
                let inner: Vec<C> = (a + 1..z).filter_map(|k| strong(c[k])).collect();
                let set = if inner.contains(&e) {
                    Some(e)
                } else if !inner.is_empty() {
                    let before = (0..a).rev().find_map(|k| strong(c[k])).unwrap_or(sos);
                    Some(if before != e { before } else { e })
                } else {
                    None
                };
                if let Some(d) = set {
                    for p in [a, z] {
                        c[p] = d;
                        let mut k = p + 1;
                        while k < m && o[k] == NSM {
                            c[k] = d;
                            k += 1;
                        }
                    }
                }
            }
        }
        // N1, N2
        let ni = |x: C| matches!(x, B | S | WS | ON | FSI | LRI | RLI | PDI);
        let mut k = 0;
        while k < m {
            if ni(c[k]) {
                let mut j = k;
                while j < m && ni(c[j]) {
                    j += 1;
                }
                let d = |x: C| match x {
                    L => L,
                    _ => R, // R, EN, AN
                };
                let a = if k == 0 { sos } else { d(c[k - 1]) };
                let z = if j == m { eos } else { d(c[j]) };
                let v = if a == z { a } else { e };
                for x in &mut c[k..j] {
                    *x = v;
                }
                k = j;
            } else {
                k += 1;
            }
        }
        // I1, I2
        for (k, i) in seq.iter().enumerate() {
            cls[*i] = c[k];
            out[*i] = match (level % 2, c[k]) {
                (0, R) => level + 1,
                (0, AN) | (0, EN) => level + 2,
                (1, L) | (1, EN) | (1, AN) => level + 1,
                _ => level,
            };
        }
    }
    let mut res = vec![para; t.len()];
    for (k, i) in idx.iter().enumerate() {
        res[*i] = out[k];
    }
    for i in 0..t.len() {
        if removed(t[i]) {
            res[i] = if i == 0 { para } else { res[i - 1] };
        }
    }
    res
}

/// L1 on a line `a..b` of a paragraph: levels of the characters that X9 keeps.
pub fn l1(t: &[C], lv: &[u8], para: u8, a: usize, b: usize) -> Vec<u8> {
    let mut v = lv[a..b].to_vec();
    let ws = |c: C| matches!(c, WS | FSI | LRI | RLI | PDI) || removed(c);
    for i in a..b {
        if matches!(t[i], S | B) {
            v[i - a] = para;
            let mut k = i;
            while k > a && ws(t[k - 1]) {
                k -= 1;
                v[k - a] = para;
            }
        }
    }
    let mut k = b;
    while k > a && ws(t[k - 1]) {
        k -= 1;
        v[k - a] = para;
    }
    v
}

/// L2: visual order (indices into `lv`) by repeated reversal.
pub fn l2(lv: &[u8]) -> Vec<usize> {
    let mut ord: Vec<usize> = (0..lv.len()).collect();
    let max = lv.iter().copied().max().unwrap_or(0);
    let low = lv.iter().copied().filter(|l| l % 2 == 1).min();
    if let Some(low) = low {
        let mut k = max;
        while k >= low {
            let mut i = 0;
            while i < ord.len() {
                if lv[ord[i]] >= k {
                    let mut j = i;
                    while j < ord.len() && lv[ord[j]] >= k {
                        j += 1;
                    }
                    ord[i..j].reverse();
                    i = j;
                } else {
                    i += 1;
                }
            }
            k -= 1;
        }
    }
    ord
}
