//! Reference data files: `refdata/<name>.txt`, lines `START[..END];VALUE` (hex, inclusive).

use crate::util::verif_root;

/// Per-scalar reference values, as an index into `values`; 0 is the default (absent).
pub struct RefTable {
    pub values: Vec<String>,
    pub map: Vec<u16>,
}

pub fn read(name: &str) -> String {
    let p = verif_root().join("refdata").join(name);
    std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()))
}

pub fn lines(name: &str) -> Vec<(u32, u32, String)> {
    read(name)
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| {
            let (r, v) = l.split_once(';').unwrap_or((l, ""));
            let (a, b) = r.split_once("..").unwrap_or((r, r));
            (
                u32::from_str_radix(a, 16).unwrap(),
                u32::from_str_radix(b, 16).unwrap(),
                v.to_string(),
            )
        })
        .collect()
}

pub fn table(name: &str, default: &str) -> RefTable {
    let mut values = vec![default.to_string()];
    let mut map = vec![0u16; 0x110000];
    for (a, b, v) in lines(name) {
        let k = match values.iter().position(|x| *x == v) {
            Some(k) => k,
            None => {
                values.push(v);
                values.len() - 1
            }
        };
        for c in a..=b {
            map[c as usize] = k as u16;
        }
    }
    RefTable { values, map }
}

impl RefTable {
    pub fn get(&self, c: char) -> &str {
        &self.values[self.map[c as usize] as usize]
    }
    pub fn id(&self, c: char) -> u16 {
        self.map[c as usize]
    }
}

pub fn set(name: &str) -> Vec<bool> {
    let mut map = vec![false; 0x110000];
    for (a, b, _) in lines(name) {
        for c in a..=b {
            map[c as usize] = true;
        }
    }
    map
}
