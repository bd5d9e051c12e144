//! C07: equality, order and hash of values.
use crate::names::every;
use crate::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unic::bidi::{BidiInfo, Level};
use unic_char_property::*;
use unic_common::version::UnicodeVersion;
use unic_ucd_age::Age;
use unic_ucd_name::Name;
use unic_ucd_name_aliases::NameAliasType;
use unic_ucd_normal::CanonicalCombiningClass as Ccc;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// `a` and `b` are equal exactly when `same`; equal values hash alike.
#[allow(clippy::nonminimal_bool)]
fn equal<T: Eq + Hash + Clone>(a: &T, b: &T, same: bool, k: &dyn Fn() -> String, w: &mut W) {
    w.state();
    w.steps(2);
    w.eq(&(a == b), &same, k, "equality");
    w.eq(&!(a != b), &same, k, "inequality");
    if same {
        w.check(hash(a) == hash(b), k, "equal values have different hashes");
        w.check(hash(a) == hash(&b.clone()), k, "a clone has a different hash");
        let v = [a.clone(), b.clone()];
        w.check(hash(&v[..1].to_vec()) == hash(&v[1..].to_vec()), k, "lists of equal values have different hashes");
    }
    w.check(a == &a.clone(), k, "a clone is not equal");
}

fn ordered<T: Ord + Hash + Clone + PartialOrd>(a: &T, b: &T, want: Ordering, k: &dyn Fn() -> String, w: &mut W) {
    equal(a, b, want == Ordering::Equal, k, w);
    w.steps(8);
    w.eq(&a.cmp(b), &want, k, "cmp");
    w.eq(&b.cmp(a), &want.reverse(), k, "cmp, reversed");
    w.eq(&a.partial_cmp(b), &Some(want), k, "partial_cmp");
    w.eq(&[a < b, a <= b, a > b, a >= b], &[want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()], k, "<, <=, >, >=");
    let (x, y) = (a.clone(), b.clone());
    w.check((&x.clone().max(y.clone()) == b) == want.is_le(), k, "max");
    w.check((&x.clone().min(y.clone()) == a) == want.is_le(), k, "min");
    let mut v = [x, y];
    v.sort();
    w.check((&v[0] == a) == want.is_le(), k, "sort");
}

trait Any: Sync + Send {
    fn name(&self) -> &'static str;
    fn len(&self) -> usize;
    fn pair(&self, i: usize, j: usize, w: &mut W);
}
struct Of<T, K>(&'static str, Vec<(T, K)>);
impl<T: Eq + Hash + Clone + Sync + Send, K: PartialEq + Sync + Send + std::fmt::Debug> Any for Of<T, K> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn len(&self) -> usize {
        self.1.len()
    }
    fn pair(&self, i: usize, j: usize, w: &mut W) {
        let (a, b) = (&self.1[i], &self.1[j]);
        equal(&a.0, &b.0, a.1 == b.1, &|| format!("{} {:?} and {:?}", self.0, a.1, b.1), w);
    }
}
struct InOrder<T, K>(&'static str, Vec<(T, K)>);
impl<T: Ord + Hash + Clone + Sync + Send, K: Ord + Sync + Send + std::fmt::Debug> Any for InOrder<T, K> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn len(&self) -> usize {
        self.1.len()
    }
    fn pair(&self, i: usize, j: usize, w: &mut W) {
        let (a, b) = (&self.1[i], &self.1[j]);
        ordered(&a.0, &b.0, a.1.cmp(&b.1), &|| format!("{} {:?} and {:?}", self.0, a.1, b.1), w);
    }
}

fn values() -> Vec<Box<dyn Any>> {
    let mut v: Vec<Box<dyn Any>> = vec![];
    macro_rules! en {
        ($v:ident, $t:ty) => {
            // Twice, so that a value also meets itself made another way.
            $v.push(Box::new(Of(
                stringify!($t),
                <$t>::all_values()
                    .iter()
                    .map(|x| (*x, x.long_name()))
                    .chain((0..N_SCALARS).step_by(5003).map(|i| <$t>::of(scalar_at(i))).filter_map(Into::<Option<$t>>::into).map(|x| (x, x.long_name())))
                    .collect(),
            )));
        };
    }
    macro_rules! bi {
        ($v:ident, $t:ty) => {
            $v.push(Box::new(Of(
                stringify!($t),
                (0..N_SCALARS).step_by(7001).chain(0..300).map(|i| <$t>::of(scalar_at(i))).map(|x| (x, x.as_bool())).collect(),
            )));
        };
    }
    every!(v, en, bi);
    let mut ages: Vec<(Age, std::cmp::Reverse<(u8, u8, u8)>)> = vec![];
    for c in (0..N_SCALARS).map(scalar_at) {
        if let Some(a) = Age::of(c) {
            let x = a.actual();
            let k = std::cmp::Reverse((x.major, x.minor, x.micro));
            if ages.iter().filter(|o| o.1 == k).count() < 2 {
                ages.push((a, k));
            }
        }
    }
    v.push(Box::new(InOrder("Age", ages)));
    const PART: [u8; 7] = [0, 1, 2, 9, 10, 128, 255];
    let n = PART.len();
    v.push(Box::new(InOrder(
        "UnicodeVersion",
        (0..n * n * n)
            .map(|i| {
                let (major, minor, micro) = (PART[i / n / n], PART[i / n % n], PART[i % n]);
                (UnicodeVersion { major, minor, micro }, (major, minor, micro))
            })
            .collect(),
    )));
    v.push(Box::new(InOrder("Level", (0..=126).map(|n| (Level::new(n).unwrap(), n)).collect())));
    let mut cccs: Vec<(Ccc, u8)> = vec![];
    for x in (0..N_SCALARS).map(|i| Ccc::of(scalar_at(i))) {
        if cccs.iter().filter(|o| o.1 == x.number()).count() < 2 {
            cccs.push((x, x.number()));
        }
    }
    v.push(Box::new(InOrder("CanonicalCombiningClass", cccs)));
    use NameAliasType::*;
    v.push(Box::new(Of("NameAliasType", vec![(NameCorrections, 0), (ControlCodeNames, 1), (AlternateNames, 2), (Figments, 3), (NameAbbreviations, 4)])));
    v.push(Box::new(InOrder(
        "Name",
        (0..N_SCALARS).map(scalar_at).filter_map(|c| Name::of(c).map(|n| (n, n.to_string()))).step_by(197).collect(),
    )));
    let mut infos = vec![];
    let mut paras = vec![];
    for i in 0..words_upto(8, 2) {
        let mut word = vec![];
        word_at(8, i, &mut word);
        let s: &'static str = Box::leak(word.iter().map(|k| ['a', 'b', '\u{5d0}', '\u{5d1}', '1', '2', '\u{2029}', '\u{202b}'][*k as usize]).collect::<String>().into_boxed_str());
        for base in [None, Some(Level::ltr()), Some(Level::rtl())] {
            let info = BidiInfo::new(s, base);
            let k = (s, info.levels.iter().map(|l| l.number()).collect::<Vec<_>>(), info.paragraphs.iter().map(|p| (p.range.clone(), p.level.number())).collect::<Vec<_>>());
            for p in &info.paragraphs {
                let k = (p.range.clone(), p.level.number());
                if paras.iter().filter(|q: &&(_, _)| q.1 == k).count() < 3 {
                    paras.push((p.clone(), k));
                }
            }
            infos.push((Same(info, base), k));
        }
    }
    v.push(Box::new(Of("BidiInfo", infos)));
    v.push(Box::new(Of("ParagraphInfo", paras)));
    v
}
/// `BidiInfo` cannot be cloned: make it again.
struct Same(BidiInfo<'static>, Option<Level>);
impl Clone for Same {
    fn clone(&self) -> Same {
        Same(BidiInfo::new(self.0.text, self.1), self.1)
    }
}
impl PartialEq for Same {
    #[allow(clippy::partialeq_ne_impl)]
    fn eq(&self, o: &Same) -> bool {
        self.0 == o.0
    }
    fn ne(&self, o: &Same) -> bool {
        self.0 != o.0
    }
}
impl Eq for Same {}
impl Hash for Same {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

pub fn all(c: &mut Check) {
    let all: &'static [Box<dyn Any>] = Box::leak(values().into_boxed_slice());
    for t in all {
        let n = t.len() as u64;
        c.family(&t.name().replace(' ', ""), &format!("every pair of {n} values: equality, inequality, hashes, and order where there is one, in every form"), n * n, move |i, w| {
            w.outcome(i);
            t.pair((i / n) as usize, (i % n) as usize, w);
            w.trace();
        });
    }
    c.family("names in order", "the name of every character against the name of the next that has one, and against itself", N_SCALARS, |i, w| {
        let Some(a) = Name::of(scalar_at(i)) else { return };
        let Some((d, b)) = (i + 1..N_SCALARS).find_map(|j| Name::of(scalar_at(j)).map(|b| (scalar_at(j), b))) else { return };
        let k = || format!("names of U+{:04X} and U+{:04X}", scalar_at(i) as u32, d as u32);
        ordered(&a, &b, a.to_string().cmp(&b.to_string()), &k, w);
        ordered(&a, &Name::of(scalar_at(i)).unwrap(), Ordering::Equal, &k, w);
        w.trace();
    });
    c.family("levels and text", "every level against the text of every number to 130, its negation and 'x'", 127, |i, w| {
        let l = Level::new(i as u8).unwrap();
        for n in 0..=130u64 {
            let s = n.to_string();
            w.state();
            let k = || format!("level {i} and {s:?}");
            w.eq(&(l == s.as_str()), &(i == n), k, "equality with a str");
            w.eq(&(l == s.clone()), &(i == n), k, "equality with a String");
        }
        w.check(l == "x", || format!("level {i} and \"x\""), "'x' stands for any level");
        w.check(l == "x".to_string(), || format!("level {i} and \"x\""), "'x' stands for any level");
        w.check(!(l == "") && !(l == "-1") && !(l == "y"), || format!("level {i}"), "equal to a text that is no level");
        w.trace();
    });
}
