use crate::*;
use std::hash::{Hash, Hasher};
use unic_common::version::UnicodeVersion;

pub fn all(c: &mut Check) {
    let list: Vec<(&str, UnicodeVersion)> = vec![
        ("unic", unic::UNICODE_VERSION),
        ("unic::ucd", unic::ucd::UNICODE_VERSION),
        ("unic::bidi", unic::bidi::UNICODE_VERSION),
        ("unic::normal", unic::normal::UNICODE_VERSION),
        ("unic::segment", unic::segment::UNICODE_VERSION),
        ("unic::idna", unic::idna::UNICODE_VERSION),
        ("unic-idna-mapping", unic_idna_mapping::UNICODE_VERSION),
        ("unic-ucd-version", unic_ucd_version::UNICODE_VERSION),
        ("age", unic_ucd_age::UNICODE_VERSION),
        ("bidi", unic_ucd_bidi::UNICODE_VERSION),
        ("block", unic_ucd_block::UNICODE_VERSION),
        ("case", unic_ucd_case::UNICODE_VERSION),
        ("category", unic_ucd_category::UNICODE_VERSION),
        ("common", unic_ucd_common::UNICODE_VERSION),
        ("hangul", unic_ucd_hangul::UNICODE_VERSION),
        ("ident", unic_ucd_ident::UNICODE_VERSION),
        ("name", unic_ucd_name::UNICODE_VERSION),
        ("name_aliases", unic_ucd_name_aliases::UNICODE_VERSION),
        ("normal", unic_ucd_normal::UNICODE_VERSION),
        ("segment", unic_ucd_segment::UNICODE_VERSION),
    ];
    let n = list.len() as u64;
    c.family("components", "the version of every component that carries data", n, move |i, w| {
        let (name, v) = &list[i as usize];
        w.state();
        let k = || name.to_string();
        w.eq(&(v.major, v.minor, v.micro), &(10, 0, 0), k, "version");
        w.eq(&v.to_string(), &"10.0.0".to_string(), k, "displayed");
    });
    c.family("emoji", "the emoji data version, and the newest age it may hold", 1, |_, w| {
        w.state();
        for (n, v) in [("unic-emoji-char", unic_emoji_char::EMOJI_VERSION), ("unic::emoji", unic::emoji::EMOJI_VERSION)] {
            w.eq(&(v.major, v.minor, v.micro), &(5, 0, 0), || n.to_string(), "version");
        }
    });
    const VALS: [u8; 8] = [0, 1, 2, 9, 10, 11, 99, 255];
    let m = VALS.len() as u64;
    let t = m * m * m;
    c.family("version-values", "every pair of versions over boundary numbers: equality, order, text, hash, tuple", t * t, move |i, w| {
        let tup = |j: u64| (VALS[(j / m / m) as usize], VALS[(j / m % m) as usize], VALS[(j % m) as usize]);
        let (a, b) = (tup(i / t), tup(i % t));
        let (x, y) = (UnicodeVersion::from(a), UnicodeVersion { major: b.0, minor: b.1, micro: b.2 });
        let k = || format!("{a:?} {b:?}");
        w.state();
        w.eq(&x.cmp(&y), &a.cmp(&b), k, "cmp");
        w.eq(&x.partial_cmp(&y), &Some(a.cmp(&b)), k, "partial_cmp");
        w.eq(&(x == y), &(a == b), k, "==");
        w.eq(&(x < y), &(a < b), k, "<");
        if i % t == 0 {
            w.eq(&x.to_string(), &format!("{}.{}.{}", a.0, a.1, a.2), k, "text");
            w.eq(&(x.major, x.minor, x.micro), &a, k, "from a tuple");
        }
        if a == b {
            let h = |v: &UnicodeVersion| {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut s);
                s.finish()
            };
            w.eq(&h(&x), &h(&y), k, "hash");
        }
    });
    c.family("version-text", "the text of every version with two fixed parts", 3 * 256, |i, w| {
        let v = (i % 256) as u8;
        let a = match i / 256 {
            0 => (v, 0, 7),
            1 => (10, v, 0),
            _ => (3, 2, v),
        };
        w.state();
        w.eq(&UnicodeVersion::from(a).to_string(), &format!("{}.{}.{}", a.0, a.1, a.2), || format!("{a:?}"), "text");
    });
}
