//! A01: the command-line tools.
use mc_common::util::*;
use mc_common::*;
use std::io::{self, Write};
use std::process::{Command, Stdio};
use unic_char_property::EnumeratedCharProperty;
use unic_cli::{parsers, writers};
use unic_ucd_category::GeneralCategory;
use unic_ucd_name::Name;
use unic_ucd_name_aliases::{name_aliases_of, NameAliasType};

// == The formats, written and read ==

fn utf8(c: char) -> Vec<u32> {
    let c = c as u32;
    match c {
        0..=0x7F => vec![c],
        0x80..=0x7FF => vec![0xC0 | c >> 6, 0x80 | c & 63],
        0x800..=0xFFFF => vec![0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63],
        _ => vec![0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63],
    }
}
fn utf16(c: char) -> Vec<u32> {
    let c = c as u32;
    if c < 0x10000 { vec![c] } else { vec![0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)] }
}
fn scalar(c: u32) -> Option<char> {
    char::from_u32(c)
}
/// Table 3-7 of the Unicode Standard.
fn from_utf8(b: &[u32]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7F => (0, 0x80, 0xBF),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return None,
        };
        let mut c = if n == 0 { b[i] } else { b[i] & (0x3F >> n) };
        for k in 1..=n {
            let x = *b.get(i + k)?;
            if !(if k == 1 { lo..=hi } else { 0x80..=0xBF }).contains(&x) {
                return None;
            }
            c = c << 6 | x & 63;
        }
        out.push(scalar(c)?);
        i += n + 1;
    }
    Some(out)
}
fn from_utf16(u: &[u32]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < u.len() {
        if (0xD800..0xDC00).contains(&u[i]) {
            let lo = *u.get(i + 1)?;
            if !(0xDC00..0xE000).contains(&lo) {
                return None;
            }
            out.push(scalar(0x10000 + (u[i] - 0xD800) * 0x400 + lo - 0xDC00)?);
            i += 2;
        } else {
            out.push(scalar(u[i])?);
            i += 1;
        }
    }
    Some(out)
}
fn hexes(v: &[u32], pre: &str, w: usize) -> String {
    v.iter().map(|x| format!("{pre}{x:0w$X}")).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    Code,
    U8,
    U16,
}
const FS: [F; 3] = [F::Code, F::U8, F::U16];

fn print(f: F, s: &str) -> String {
    match f {
        F::Code => s.chars().map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" "),
        F::U8 => hexes(&s.chars().flat_map(utf8).collect::<Vec<_>>(), "0x", 2),
        F::U16 => hexes(&s.chars().flat_map(utf16).collect::<Vec<_>>(), "0x", 4),
    }
}

/// What reading `s` may do.
#[derive(PartialEq, Debug)]
enum Reads {
    /// Must give this text.
    Text(String),
    /// This text, or be refused: a notation the help says nothing about.
    Maybe(String),
    Refused,
}
fn reads(f: F, s: &str) -> Reads {
    let word = |c: char| c.is_alphanumeric() || c == '_' || f == F::Code && c == '+';
    let mut loose = s.is_empty();
    let mut v = vec![];
    let parts: Vec<&str> = s.split(|c: char| !word(c)).collect();
    for t in &parts {
        if t.is_empty() {
            loose = true;
            continue;
        }
        let b = t.as_bytes();
        let pre = match f {
            F::Code => b.len() >= 2 && matches!(b[0], b'U' | b'u') && b[1] == b'+',
            _ => b.len() >= 2 && b[0] == b'0' && matches!(b[1], b'x' | b'X'),
        };
        let mut d = if pre { &t[2..] } else { t };
        if d.starts_with('+') {
            loose = true;
            d = &d[1..];
        }
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Reads::Refused;
        }
        let d = d.trim_start_matches('0');
        let x = if d.len() > 6 { u32::MAX } else { d.bytes().fold(0, |a, c| a * 16 + (c as char).to_digit(16).unwrap()) };
        if x > match f { F::Code => 0x10FFFF, F::U8 => 0xFF, F::U16 => 0xFFFF } {
            return Reads::Refused;
        }
        v.push(x);
    }
    let t = match f {
        F::Code => v.iter().map(|c| scalar(*c)).collect(),
        F::U8 => from_utf8(&v),
        F::U16 => from_utf16(&v),
    };
    match t {
        None => Reads::Refused,
        Some(t) if s.is_empty() || !loose => Reads::Text(t),
        Some(t) => Reads::Maybe(t),
    }
}
fn parse(f: F, s: &str) -> Result<String, String> {
    guard(|| match f {
        F::Code => parsers::codepoints(s),
        F::U8 => parsers::utf8_hex(s),
        F::U16 => parsers::utf16_hex(s),
    })
}
fn written(f: F, s: &str) -> Result<String, String> {
    guard(|| {
        let mut o = vec![];
        match f {
            F::Code => writers::write_as_codepoints(&mut o, s.chars()),
            F::U8 => writers::write_as_utf8_hex(&mut o, s.chars()),
            F::U16 => writers::write_as_utf16_hex(&mut o, s.chars()),
        }
        .unwrap();
        String::from_utf8(o).unwrap()
    })
}
fn read(f: F, s: &str, w: &mut W) {
    w.state();
    w.steps(s.len());
    let want = reads(f, s);
    let got = parse(f, s);
    w.trace();
    w.outcome(got.as_ref().map_or(0, |t| hash_bytes(t.as_bytes())));
    let ok = match (&want, &got) {
        (Reads::Text(t), Ok(g)) => t == g,
        (Reads::Maybe(t), Ok(g)) => t == g,
        (Reads::Text(_), Err(_)) => false,
        (Reads::Refused, Ok(_)) => false,
        (_, Err(_)) => true,
    };
    if !ok {
        w.fail(format!("{f:?} {}", esc(s)), format!("read as {got:?}, must be {want:?}"));
    }
    w.sample(|| format!("{f:?} {} -> {want:?}", esc(s)));
}

/// A string literal read back: the text, and which characters were escaped.
fn literal(s: &str) -> Option<Vec<(char, bool)>> {
    let mut it = s.strip_prefix('"')?.strip_suffix('"')?.chars();
    let mut out = vec![];
    while let Some(c) = it.next() {
        match c {
            '"' => return None,
            '\\' => out.push((
                match it.next()? {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    '0' => '\0',
                    x @ ('\\' | '\'' | '"') => x,
                    'u' => {
                        if it.next() != Some('{') {
                            return None;
                        }
                        let mut x = 0u32;
                        let mut n = 0;
                        loop {
                            match it.next()? {
                                '}' if n > 0 => break,
                                d => x = x.checked_mul(16)? + d.to_digit(16)?,
                            }
                            n += 1;
                        }
                        scalar(x)?
                    }
                    _ => return None,
                },
                true,
            )),
            c => out.push((c, false)),
        }
    }
    Some(out)
}
fn escapes(s: &str, w: &mut W) {
    for k in 0..3 {
        let got = guard(|| {
            let mut o = vec![];
            match k {
                0 => writers::write_with_control_n_unicode_braces_escape(&mut o, s.chars()),
                1 => writers::write_with_all_braces_escape(&mut o, s.chars()),
                _ => writers::write_with_control_braces_escape(&mut o, s.chars()),
            }
            .unwrap();
            String::from_utf8(o).unwrap()
        });
        w.steps(1);
        escaped(k, s, &got, w);
    }
}
/// `got` is `s` in one of the three styles of escape.
fn escaped(k: usize, s: &str, got: &Result<String, String>, w: &mut W) {
    let name = ["escape", "escape-all", "escape-control"][k];
    let key = || format!("{name} {}", esc(s));
    let Ok(g) = got else {
        return w.fail(key(), format!("{got:?}"));
    };
    let Some(v) = literal(g) else {
        return w.fail(key(), format!("{g} is no string literal"));
    };
    if v.iter().map(|x| x.0).ne(s.chars()) {
        return w.fail(key(), format!("{g} is another text"));
    }
    let must = |c: char| match k {
        0 => c.is_control() || !c.is_ascii(),
        1 => true,
        _ => c.is_control(),
    };
    // Printable ASCII is kept, but for what a literal must escape.
    let keep = |c: char| k != 1 && (' '..='~').contains(&c) && !matches!(c, '"' | '\\' | '\'');
    if let Some((c, e)) = v.iter().find(|(c, e)| must(*c) && !e || keep(*c) && *e) {
        w.fail(key(), format!("{g}: {} escaped: {e}", esc(&c.to_string())));
    }
    if k == 1 && *g != format!("\"{}\"", s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()) {
        w.fail(key(), format!("{g}: not \\u{{...}} for all"));
    }
}
fn round(s: &str, w: &mut W) {
    w.state();
    for f in FS {
        w.steps(1);
        let want = print(f, s);
        let key = || format!("{f:?} of {}", esc(s));
        w.eq(&written(f, s), &Ok(want.clone()), key, "written");
        w.eq(&parse(f, &want), &Ok(s.to_string()), key, "read back");
        w.trace();
        w.outcome(hash_bytes(want.as_bytes()));
    }
    escapes(s, w);
}

// == Writing: where it is written to may take a part, be interrupted, or fail ==

type Writer = fn(&mut Sink, &str) -> unic_cli::Result<()>;
const WRITERS: [(&str, Writer); 6] = [
    ("codepoints", |o, s| writers::write_as_codepoints(o, s.chars())),
    ("utf8-hex", |o, s| writers::write_as_utf8_hex(o, s.chars())),
    ("utf16-hex", |o, s| writers::write_as_utf16_hex(o, s.chars())),
    ("escape", |o, s| writers::write_with_control_n_unicode_braces_escape(o, s.chars())),
    ("escape-all", |o, s| writers::write_with_all_braces_escape(o, s.chars())),
    ("escape-control", |o, s| writers::write_with_control_braces_escape(o, s.chars())),
];
/// For a text of one character only.
const SINGLE: [(&str, Writer); 3] = [
    ("codepoint of one", |o, s| writers::write_char_as_codepoint(o, s.chars().next().unwrap())),
    ("utf8-hex of one", |o, s| writers::write_char_as_utf8_hex(o, s.chars().next().unwrap())),
    ("utf16-hex of one", |o, s| writers::write_char_as_utf16_hex(o, s.chars().next().unwrap())),
];
/// What happens once `room` bytes are taken.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Fail,
    /// Takes nothing more.
    Full,
    /// One interruption, then goes on.
    Interrupt,
}
#[derive(Debug)]
struct Sink {
    got: Vec<u8>,
    /// Takes at most this many bytes in one go.
    gulp: usize,
    room: usize,
    fate: Option<Fate>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.gulp).min(if self.fate.is_some() { self.room } else { usize::MAX });
        if n == 0 && !b.is_empty() {
            match self.fate {
                Some(Fate::Fail) => return Err(io::Error::new(io::ErrorKind::Other, "no")),
                Some(Fate::Interrupt) => {
                    self.fate = None;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "later"));
                }
                _ => return Ok(0),
            }
        }
        self.got.extend(&b[..n]);
        self.room = self.room.saturating_sub(n);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn faults(s: &str, w: &mut W) {
    let one = s.chars().count() == 1;
    for (name, f) in WRITERS.iter().chain(if one { &SINGLE[..] } else { &[] }) {
        let run = |gulp: usize, room: usize, fate: Option<Fate>| {
            guard(|| {
                let mut o = Sink { got: vec![], gulp, room, fate };
                let r = f(&mut o, s);
                (r.is_ok(), o.got)
            })
        };
        let full = run(usize::MAX, 0, None);
        w.trace();
        let Ok((true, all)) = full else {
            w.fail(format!("{name} of {}", esc(s)), format!("{full:?}"));
            continue;
        };
        w.outcome(hash_bytes(&all));
        if let Some(i) = SINGLE.iter().position(|x| x.0 == *name) {
            w.eq(&String::from_utf8_lossy(&all).into_owned(), &print(FS[i], s), || format!("{name}: {}", esc(s)), "written");
        }
        for gulp in [1, 2, 3, usize::MAX] {
            for room in 0..=all.len() {
                for fate in [Fate::Fail, Fate::Full, Fate::Interrupt] {
                    w.state();
                    w.steps(1);
                    let key = || format!("{name} of {} to what takes {gulp} bytes at once and does {fate:?} after {room}", esc(s));
                    match run(gulp, room, Some(fate)) {
                        Ok((ok, got)) => {
                            let whole = room == all.len() || fate == Fate::Interrupt;
                            w.check(ok == whole, key, &format!("success: {ok}"));
                            w.check(if ok { got == all } else { all.starts_with(&got) }, key, &format!("written: {:?}", String::from_utf8_lossy(&got)));
                        }
                        Err(e) => w.fail(key(), e),
                    }
                }
            }
        }
    }
}

// == The programs ==

fn tool(name: &str, args: &[String]) -> (bool, String) {
    let exe = std::env::current_exe().unwrap().with_file_name(name);
    let o = Command::new(exe).args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
}
/// Option value, format (none: plain), style of escape.
const INPUTS: [(&str, Option<F>); 5] =
    [("plain", None), ("codepoint", Some(F::Code)), ("codepoints", Some(F::Code)), ("utf8-hex", Some(F::U8)), ("utf16-hex", Some(F::U16))];
#[derive(Clone, Copy)]
enum Out {
    Plain,
    F(F),
    E(usize),
}
const OUTPUTS: [(&str, Out); 14] = [
    ("plain", Out::Plain),
    ("codepoint", Out::F(F::Code)),
    ("codepoints", Out::F(F::Code)),
    ("utf8-hex", Out::F(F::U8)),
    ("utf16-hex", Out::F(F::U16)),
    ("braces-escape", Out::E(0)),
    ("js6-escape", Out::E(0)),
    ("rust-escape", Out::E(0)),
    ("braces-escape-all", Out::E(1)),
    ("js6-escape-all", Out::E(1)),
    ("rust-escape-all", Out::E(1)),
    ("braces-escape-control", Out::E(2)),
    ("js6-escape-control", Out::E(2)),
    ("rust-escape-control", Out::E(2)),
];
/// The output must be `s` written as `out`.
fn shows(key: String, got: (bool, String), s: &str, out: Out, newline: bool, w: &mut W) {
    w.trace();
    w.outcome(hash_bytes(got.1.as_bytes()));
    let (true, mut t) = got else {
        return w.fail(key, format!("failed, with output {:?}", got.1));
    };
    if newline && t.pop() != Some('\n') {
        return w.fail(key, format!("no newline at the end of {t:?}"));
    }
    match out {
        Out::Plain => drop(w.eq(&t, &s.to_string(), || key.clone(), "output")),
        Out::F(f) => drop(w.eq(&t, &print(f, s), || key.clone(), "output")),
        Out::E(k) => escaped(k, s, &Ok(t), w),
    }
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn main() {
    let mut c = Check::new("A01");
    c.assume("Refusing an input is failing (the parsers panic, the program exits with an error); which message is shown is left open.");
    c.assume("Notations the help says nothing about (no or several separators in a row, a lone sign) may be refused or read, but not as another text.");
    const BLOCK: u64 = 1 << 10;
    c.family("every-scalar", "every scalar value: written in every format, read back", (N_SCALARS as u64).div_ceil(BLOCK), |i, w| {
        for k in i * BLOCK..((i + 1) * BLOCK).min(N_SCALARS as u64) {
            round(&scalar_at(k).to_string(), w);
        }
    });
    const EDGE: [char; 18] = [
        '\0', '\t', '\n', ' ', '"', '\'', '\\', 'a', '0', '~', '\u{7F}', '\u{80}', '\u{301}', '\u{7FF}', '\u{D7FF}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}',
    ];
    let n = words_upto(18, c.by(3, 4));
    c.family("texts", "every text up to 3 (thorough: 4) characters over 18 boundary characters", n.div_ceil(64), move |i, w| {
        let mut v = vec![];
        for k in i * 64..((i + 1) * 64).min(n) {
            word_at(18, k, &mut v);
            round(&v.iter().map(|x| EDGE[*x as usize]).collect::<String>(), w);
        }
    });
    // The notations, character by character.
    let alpha: [(F, &[char]); 3] = [
        (F::Code, &['U', 'u', '+', '0', '4', 'F', 'd', '8', ' ', ',', 'x', 'é', '_']),
        (F::U8, &['0', 'x', 'X', '4', 'C', '3', 'f', 'A', ' ', ',', '+', 'U', '٣']),
        (F::U16, &['0', 'x', 'X', '4', 'D', '8', 'c', 'F', ' ', ';', '-', 'g', '_']),
    ];
    for (f, a) in alpha {
        let n = words_upto(13, c.by(5, 6));
        c.family(&format!("notation-{f:?}"), "every string up to 5 (thorough: 6) characters over the notation's characters and some that are not", n.div_ceil(512), move |i, w| {
            let mut v = vec![];
            for k in i * 512..((i + 1) * 512).min(n) {
                word_at(13, k, &mut v);
                read(f, &v.iter().map(|x| a[*x as usize]).collect::<String>(), w);
            }
        });
    }
    const SEPS: [&str; 6] = [" ", ",", ";", "-", "\n", ", "];
    const TOKENS: [&str; 22] = [
        "0", "41", "U+41", "u+0041", "U+10FFFF", "110000", "10FFFF", "D7FF", "D800", "DFFF", "E000", "FFFFFFFF", "100000041", "00000000041", "", "G", "U+", "+41", "U+-41", "0x41", "FF", "u+000010ffff",
    ];
    c.family("tokens", "every list of up to three tokens, well-formed and not, between six separators, in every format", words_upto(22, 3) * 6, move |i, w| {
        let mut v = vec![];
        word_at(22, i / 6, &mut v);
        let s = v.iter().map(|x| TOKENS[*x as usize]).collect::<Vec<_>>().join(SEPS[(i % 6) as usize]);
        for f in FS {
            read(f, &s, w);
        }
    });
    // Code units: what is not well-formed is refused.
    const BYTES: [u32; 25] = [
        0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF,
    ];
    let n = words_upto(25, c.by(4, 5));
    c.family("utf8", "every sequence of up to 4 (thorough: 5) boundary bytes", n.div_ceil(512), move |i, w| {
        let mut v = vec![];
        for k in i * 512..((i + 1) * 512).min(n) {
            word_at(25, k, &mut v);
            read(F::U8, &v.iter().map(|x| format!("{:02x}", BYTES[*x as usize])).collect::<Vec<_>>().join(" "), w);
        }
    });
    c.family("utf8-pairs", "every pair of bytes", 256, move |i, w| {
        for k in 0..256 {
            read(F::U8, &format!("0x{i:X} {k:x}"), w);
        }
    });
    const UNITS: [u32; 10] = [0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0xD83C];
    let n = words_upto(10, c.by(5, 6));
    c.family("utf16", "every sequence of up to 5 (thorough: 6) boundary units", n.div_ceil(512), move |i, w| {
        let mut v = vec![];
        for k in i * 512..((i + 1) * 512).min(n) {
            word_at(10, k, &mut v);
            read(F::U16, &v.iter().map(|x| format!("{:04x}", UNITS[*x as usize])).collect::<Vec<_>>().join(","), w);
        }
    });

    // Long texts: every format, and what lies before and after a long run.
    const LONG: [char; 9] = ['\0', '"', '\\', 'a', '~', '\u{80}', '\u{301}', '\u{FFFF}', '\u{10FFFF}'];
    let lens = c.by(&[48usize, 300][..], &[48, 300, 5000]);
    c.family("stretched", &format!("every text of 4 over 9 boundary characters {STRETCHES}, n of {lens:?}"), stretched_size(9), move |i, w| {
        for n in lens {
            round(&stretched(9, i, *n).iter().map(|x| LONG[*x as usize]).collect::<String>(), w);
        }
    });
    const LTOKENS: [[&str; 6]; 3] = [
        ["41", "U+10FFFF", "u+00000000E9", "D800", "110000", "x"],
        ["41", "0xC3", "0XBF", "F0", "0x0090", "100"],
        ["41", "0xD800", "0xdfff", "0000FFFF", "10000", "+"],
    ];
    c.family("stretched tokens", &format!("in every format every list of 4 of 6 tokens {STRETCHES}, n of {lens:?}"), stretched_size(6) * 3, move |i, w| {
        let f = (i % 3) as usize;
        for n in lens {
            let v: Vec<&str> = stretched(6, i / 3, *n).iter().map(|x| LTOKENS[f][*x as usize]).collect();
            read(FS[f], &v.join(" "), w);
        }
    });
    // One token with many digits, one separator many times.
    c.family("long tokens", "in every format one token after up to 300 zeros, with every prefix, and up to 300 separators", 301 * 3, |i, w| {
        let (f, n) = (FS[(i % 3) as usize], (i / 3) as usize);
        let z = "0".repeat(n);
        for t in ["41", "7F", "80", "100", "D800", "FFFF", "10000", "10FFFF", "110000", "100000000", ""] {
            for pre in ["", "U+", "u+", "0x", "0X", "+"] {
                read(f, &format!("{pre}{z}{t}"), w);
            }
        }
        for sep in [" ", ",", "-"] {
            read(f, &format!("41{}42", sep.repeat(n)), w);
        }
    });
    const FAULTY: [char; 7] = ['a', '"', '\\', '\u{1}', '\u{E9}', '\u{FFFF}', '\u{10FFFF}'];
    let n = words_upto(7, c.by(3, 4));
    c.family("faults", "every text up to 3 (thorough: 4) of 7 characters, in every format, to what takes 1, 2, 3 or all bytes at once and fails, is full or is interrupted after every number of bytes", n, move |i, w| {
        let mut v = vec![];
        word_at(7, i, &mut v);
        faults(&v.iter().map(|x| FAULTY[*x as usize]).collect::<String>(), w);
    });

    // The programs themselves.
    const TEXTS: [&str; 8] = ["", "A", "Hi ü", "\u{10FFFF}\u{FFFF}", "\"\\'", "日本\u{301}", "\u{80}\t\n.", "U+41"];
    let per = 14 * 8 * 3;
    c.family("echo", "unic-echo: every input format by every output format, spelled three ways, with and without a newline, on eight texts", 5 * per, move |i, w| {
        w.state();
        let (inp, out) = (INPUTS[(i / per) as usize], OUTPUTS[(i % 14) as usize]);
        let text = TEXTS[(i / 14 % 8) as usize];
        let how = i / 14 / 8 % 3;
        let spell = |s: &str| match how {
            0 => s.to_string(),
            1 => s.to_uppercase(),
            _ => s.replace('-', ""),
        };
        let arg = inp.1.map_or(text.to_string(), |f| print(f, text));
        let mut args = match how {
            0 => strings(&["-i", &spell(inp.0), "-o", &spell(out.0)]),
            1 => strings(&["--output", &spell(out.0), "--input", &spell(inp.0), "-n"]),
            _ => vec![format!("--input={}", spell(inp.0)), format!("--output={}", spell(out.0)), "--no-newline".into()],
        };
        args.push("--".into());
        // One argument for all, or one for each code point or unit.
        if how == 1 && inp.1.is_some() {
            args.extend(arg.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()));
        } else {
            args.push(arg);
        }
        w.sample(|| format!("unic-echo {args:?}"));
        shows(format!("unic-echo {args:?}"), tool("unic-echo", &args), text, out.1, how == 0, w);
    });
    const ARGS: [&str; 6] = ["", "a", "ü ", " ", "\\u{41}", "-n"];
    c.family("echo-arguments", "unic-echo: every list of up to three arguments, joined by single spaces", words_upto(6, 3), move |i, w| {
        w.state();
        let mut v = vec![];
        word_at(6, i, &mut v);
        let texts: Vec<&str> = v.iter().map(|x| ARGS[*x as usize]).collect();
        let mut args = strings(&["--"]);
        args.extend(texts.iter().map(|s| s.to_string()));
        shows(format!("unic-echo {args:?}"), tool("unic-echo", &args), &texts.join(" "), Out::Plain, true, w);
    });
    c.family("full", "unic-echo: every output format, with and without a newline, short and long, to a device that is full: an error exit", 14 * 2 * 3, |i, w| {
        w.state();
        let (out, n, newline) = (OUTPUTS[(i % 14) as usize].0, [1, 1000, 20000][(i / 28) as usize], i / 14 % 2 == 0);
        let mut args = strings(&["-o", out]);
        if !newline {
            args.push("-n".into());
        }
        args.push("é".repeat(n));
        let exe = std::env::current_exe().unwrap().with_file_name("unic-echo");
        let o = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        let ok = Command::new(exe).args(&args).stdin(Stdio::null()).stdout(o).stderr(Stdio::null()).status().unwrap().success();
        w.trace();
        w.outcome(ok as u64);
        w.check(!ok, || format!("unic-echo -o {out}, newline: {newline}, {n} characters, to /dev/full"), "success, with nothing written");
    });
    const LENGTHS: [usize; 6] = [255, 256, 1023, 1024, 8192, 30000];
    c.family("echo long", "unic-echo: every input by every output format, texts of 255 to 30000 characters, in one argument and in many", 5 * 14 * 6, |i, w| {
        w.state();
        let (inp, out, n) = (INPUTS[(i % 5) as usize], OUTPUTS[(i / 5 % 14) as usize], LENGTHS[(i / 70) as usize]);
        // An argument holds at most 128 KiB.
        let text: String = "aé日\u{10FFFF}".chars().cycle().take(if inp.1.is_some() { n / 4 } else { n }).collect();
        for many in [false, true] {
            let mut args = strings(&["-i", inp.0, "-o", out.0, "--"]);
            let arg = inp.1.map_or(text.clone(), |f| print(f, &text));
            if many && inp.1.is_some() {
                args.extend(arg.split(' ').map(|s| s.to_string()));
            } else if many {
                continue;
            } else {
                args.push(arg);
            }
            shows(format!("unic-echo {:?} {n} characters, in many: {many}", &args[..4]), tool("unic-echo", &args), &text, out.1, true, w);
        }
    });
    const BAD: [&[&str]; 19] = [
        &["-i", "utf8", "41"],
        &["-i", "utf8-hexx", "41"],
        &["-i", "utf32-hex", "41"],
        &["-i", "codepointss", "41"],
        &["-i", "rust-escape", "a"],
        &["-i", "", "a"],
        &["-o", "utf8", "a"],
        &["-o", "escape", "a"],
        &["-o", "braces-escape-", "-x", "a"],
        &["-o", "rust-escape-al", "a"],
        &["-o", "", "a"],
        &["-i", "codepoints", "D800"],
        &["-i", "codepoints", "110000"],
        &["-i", "codepoints", "41", "x"],
        &["-i", "utf8-hex", "C0 80"],
        &["-i", "utf8-hex", "100"],
        &["-i", "utf16-hex", "D800 0041"],
        &["-i", "utf16-hex", "10000"],
        &["-o"],
    ];
    c.family("echo-refused", "unic-echo: unknown formats and malformed inputs: an error exit, no text", BAD.len() as u64, |i, w| {
        w.state();
        let args = strings(BAD[i as usize]);
        let (ok, out) = tool("unic-echo", &args);
        w.trace();
        w.outcome(i);
        if ok || !out.is_empty() {
            w.fail(format!("unic-echo {args:?}"), format!("success: {ok}, output {out:?}"));
        }
    });
    // Arguments cannot hold NUL.
    const STEP: u64 = 1 << 12;
    // As built here, it dies in its table printing library before it shows anything.
    let crash = {
        let exe = std::env::current_exe().unwrap().with_file_name("unic-inspector");
        Command::new(exe).arg("A").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_or(true, |s| !s.success())
    };
    c.family("inspector", "unic-inspector: a row for every scalar value but NUL, with its code point, name and category", (N_SCALARS as u64 - 1).div_ceil(STEP), |i, w| {
        let text: Vec<char> = (i * STEP + 1..((i + 1) * STEP + 1).min(N_SCALARS as u64)).map(scalar_at).collect();
        w.steps(text.len());
        let (ok, out) = tool("unic-inspector", &["--".into(), text.iter().collect()]);
        w.trace();
        let key = |c: char| format!("unic-inspector {}", esc(&c.to_string()));
        if crash {
            w.state();
            return w.fail("unic-inspector \"A\"", "the program crashes");
        }
        if !ok {
            return w.fail(key(text[0]), "failed");
        }
        let rows: Vec<[String; 3]> = out
            .split('\n')
            .filter_map(|l| {
                let mut p = l.rsplitn(4, '|');
                let (gc, name, code) = (p.next()?.trim(), p.next()?.trim(), p.next()?.trim());
                p.next()?;
                (!code.is_empty()).then(|| [code.to_string(), name.to_string(), gc.to_string()])
            })
            .collect();
        w.outcome(hash_bytes(out.as_bytes()));
        if rows.len() != text.len() {
            return w.fail(key(text[0]), format!("{} rows for {} characters", rows.len(), text.len()));
        }
        for (c, r) in text.iter().zip(&rows) {
            w.state();
            let name = Name::of(*c).map(|n| n.to_string()).unwrap_or_else(|| {
                name_aliases_of(*c, NameAliasType::NameAbbreviations).map_or("<none>".into(), |a| a[0].to_string())
            });
            let want = [format!("U+{:04X}", *c as u32), name, GeneralCategory::of(*c).long_name().to_string()];
            w.eq(r, &want, || key(*c), "row");
        }
        for c in &text {
            if !out.contains(*c) {
                w.fail(key(*c), "the character is not shown");
            }
        }
    });
    c.family("versions", "unic-versions: every data component reports one version", 1, |_, w| {
        w.state();
        let (ok, out) = tool("unic-versions", &[]);
        w.trace();
        w.outcome(hash_bytes(out.as_bytes()));
        let v: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix("Unicode Version: ")).collect();
        let e: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix("Emoji Version: ")).collect();
        w.check(ok && v.len() >= 3 && v.iter().all(|x| *x == "10.0.0"), || "unic-versions".into(), &format!("Unicode versions {v:?}"));
        w.check(e.iter().all(|x| *x == "5.0.0"), || "unic-versions emoji".into(), &format!("Emoji versions {e:?}"));
    });
    c.finish()
}
