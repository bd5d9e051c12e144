//! U01-U12, I02, C05, V01: per-character data, complete over all scalar values.
mod props;
mod declared;
mod display;
mod hist;
mod names;
mod strings;
mod values;
mod versions;
use mc_common::data;
use mc_common::util::*;
use mc_common::*;
use std::fmt::Write;

/// One observable of a character, compared with a reference table for every scalar value.
pub struct Acc {
    pub name: String,
    pub table: &'static str,
    pub default: &'static str,
    pub get: Box<dyn Fn(char, &mut String) + Sync + Send>,
    /// From reference value to the expected observation.
    pub want: Box<dyn Fn(char, &str) -> String + Sync + Send>,
}
pub fn acc(
    name: &str,
    table: &'static str,
    default: &'static str,
    get: impl Fn(char, &mut String) + Sync + Send + 'static,
) -> Acc {
    Acc {
        name: name.into(),
        table,
        default,
        get: Box::new(get),
        want: Box::new(|_, v| v.to_string()),
    }
}
pub fn acc_map(
    name: &str,
    table: &'static str,
    default: &'static str,
    get: impl Fn(char, &mut String) + Sync + Send + 'static,
    want: impl Fn(char, &str) -> String + Sync + Send + 'static,
) -> Acc {
    Acc { want: Box::new(want), ..acc(name, table, default, get) }
}

pub fn nonchar(c: char) -> bool {
    c as u32 & 0xFFFE == 0xFFFE || ('\u{fdd0}'..='\u{fdef}').contains(&c)
}
/// The library's tests fix the Bidi_Class of noncharacters to L; the standard says BN.
pub fn known_nonchar(c: char) -> String {
    format!("noncharacter U+{:04X} has Bidi_Class L", c as u32)
}

/// Compare every accessor on every scalar value.
pub fn families(c: &mut Check, accs: Vec<Acc>) {
    // Load each table once.
    let mut tables: std::collections::HashMap<&str, std::sync::Arc<data::RefTable>> = Default::default();
    for a in accs {
        let t = tables
            .entry(a.table)
            .or_insert_with(|| std::sync::Arc::new(data::table(&format!("{}.txt", a.table), a.default)))
            .clone();
        let about = format!("{} of every scalar value against refdata/{}.txt", a.name, a.table);
        c.family(&a.name.clone(), &about, N_SCALARS, move |i, w| {
            let ch = scalar_at(i);
            let mut s = String::new();
            (a.get)(ch, &mut s);
            let id = t.id(ch);
            let want = (a.want)(ch, &t.values[id as usize]);
            w.state();
            w.outcome(id as u64);
            if i % 40961 == 0 {
                w.sample(|| format!("{} U+{:04X} = {}", a.name, ch as u32, s));
            }
            if a.table == "bidi_class" && nonchar(ch) && s != want && s == (a.want)(ch, "L") {
                return w.fail(known_nonchar(ch), format!("{}: implementation {s:?}, model {want:?}", a.name));
            }
            w.eq(&s, &want, || format!("{} U+{:04X}", a.name, ch as u32), "value");
        });
    }
}

fn diff(accs: Vec<Acc>) {
    for a in accs {
        let t = data::table(&format!("{}.txt", a.table), a.default);
        let mut out = vec![];
        for i in 0..N_SCALARS {
            let ch = scalar_at(i);
            let mut s = String::new();
            (a.get)(ch, &mut s);
            let want = (a.want)(ch, t.get(ch));
            if s != want {
                out.push((ch as u32, s, want));
            }
        }
        println!("== {} vs {}: {} differences", a.name, a.table, out.len());
        let mut k = 0;
        while k < out.len() {
            let mut j = k;
            while j + 1 < out.len() && out[j + 1].0 == out[j].0 + 1 && out[j + 1].1 == out[k].1 && out[j + 1].2 == out[k].2 {
                j += 1;
            }
            let mut l = String::new();
            let _ = write!(l, "  {:04X}..{:04X} repo={:?} ref={:?}", out[k].0, out[j].0, out[k].1, out[k].2);
            println!("{l}");
            k = j + 1;
        }
    }
}

fn main() {
    let p = std::env::args().nth(1).expect("property");
    if std::env::args().nth(2).as_deref() == Some("--diff") {
        return diff(props::accessors(&p));
    }
    if std::env::args().nth(2).as_deref() == Some("--ask") {
        return hist::ask(std::env::args().nth(3).unwrap().parse().unwrap());
    }
    let mut c = Check::new(&p);
    families(&mut c, props::accessors(&p));
    match p.as_str() {
        "U02" => props::ages(&mut c),
        "U03" => props::blocks(&mut c),
        "U04" => names::order(&mut c),
        "U05" => names::aliases(&mut c),
        "U06" => strings::bidi(&mut c),
        "U07" => props::ccc(&mut c),
        "U10" => props::ident(&mut c),
        "U12" => props::basics(&mut c),
        "C05" => names::value_names(&mut c),
        "C07" => values::all(&mut c),
        "H01" => hist::all(&mut c),
        "C06" => display::all(&mut c),
        "V01" => versions::all(&mut c),
        _ => (),
    }
    c.finish()
}
