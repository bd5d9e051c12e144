//! Every way the standard traits offer to step through an iterator, against the list of what remains.
use crate::W;
use std::fmt::Debug;

type K<'a> = &'a dyn Fn() -> String;

/// `mk` makes the iterator in the state under test; `rest` is what it must yield.
pub fn forward<I: Iterator<Item = T>, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, rest: &[T], k: K, w: &mut W) {
    let n = rest.len();
    let (lo, hi) = mk().size_hint();
    w.check(lo <= n && hi.map_or(true, |h| h >= n), k, "size_hint does not bound what remains");
    w.eq(&mk().collect::<Vec<_>>().as_slice(), &rest, k, "collect");
    w.eq(&mk().count(), &n, k, "count");
    w.eq(&mk().last().as_ref(), &rest.last(), k, "last");
    w.eq(
        &mk().fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
        .as_slice(),
        &rest,
        k,
        "fold",
    );
    let mut v = vec![];
    mk().for_each(|x| v.push(x));
    w.eq(&v.as_slice(), &rest, k, "for_each");
    for j in picks(n) {
        let mut it = mk();
        w.eq(&it.nth(j).as_ref(), &rest.get(j), k, "nth");
        let after: &[T] = if j < n { &rest[j + 1..] } else { &[] };
        if j < n {
            let (lo, hi) = it.size_hint();
            w.check(lo <= after.len() && hi.map_or(true, |h| h >= after.len()), k, "size_hint after nth");
            w.eq(&it.collect::<Vec<_>>().as_slice(), &after, k, "what follows nth");
        } else {
            w.eq(&it.next(), &None, k, "after nth past the end");
        }
        // Stop early, and go on.
        let mut it = mk();
        let mut i = 0;
        let got = it.try_for_each(|x| {
            i += 1;
            if i > j {
                Err(x)
            } else {
                Ok(())
            }
        });
        w.eq(&got.as_ref().err(), &rest.get(j), k, "try_for_each that stops");
        if j < n {
            w.eq(&it.next().as_ref(), &rest.get(j + 1), k, "next after try_for_each");
        }
        w.steps(2);
    }
    w.eq(&mk().step_by(2).collect::<Vec<_>>(), &rest.iter().step_by(2).cloned().collect(), k, "step_by(2)");
}

pub fn backward<I: DoubleEndedIterator<Item = T>, T: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, rest: &[T], k: K, w: &mut W) {
    let n = rest.len();
    let back: Vec<T> = rest.iter().rev().cloned().collect();
    w.eq(&mk().rev().collect::<Vec<_>>(), &back, k, "rev");
    w.eq(
        &mk().rfold(vec![], |mut v, x| {
            v.push(x);
            v
        }),
        &back,
        k,
        "rfold",
    );
    for j in picks(n) {
        let mut it = mk();
        w.eq(&it.nth_back(j).as_ref(), &back.get(j), k, "nth_back");
        if j < n {
            w.eq(&it.collect::<Vec<_>>().as_slice(), &&rest[..n - 1 - j], k, "what precedes nth_back");
        } else {
            w.eq(&it.next_back(), &None, k, "after nth_back past the end");
        }
        let mut it = mk();
        let mut i = 0;
        let got = it.rfind(|_| {
            i += 1;
            i > j
        });
        w.eq(&got.as_ref(), &back.get(j), k, "rfind that stops");
        if j < n {
            w.eq(&it.next_back().as_ref(), &back.get(j + 1), k, "next_back after rfind");
        }
        w.steps(2);
    }
}

/// Every position in and just behind a list of `n`, or some of them when it is long.
fn picks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 8 { (0..n + 2).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1] };
    v.dedup();
    v
}
