//! UAX #29 revision 31 (Unicode 10.0), rule by rule over whole strings: the model.
use mc_common::data;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[allow(non_camel_case_types)]
pub enum G { CR, LF, CN, EX, ZWJ, RI, PP, SM, L, V, T, LV, LVT, EB, EM, EBG, GAZ, XX }
use G::*;
pub const GS: [(G, &str, char); 18] = [
    (CR, "CR", '\r'), (LF, "LF", '\n'), (CN, "Control", '\u{200b}'), (EX, "Extend", '\u{301}'), (ZWJ, "ZWJ", '\u{200d}'),
    (RI, "Regional_Indicator", '\u{1f1e6}'), (PP, "Prepend", '\u{600}'), (SM, "SpacingMark", '\u{903}'), (L, "L", '\u{1100}'),
    (V, "V", '\u{1161}'), (T, "T", '\u{11a8}'), (LV, "LV", '\u{ac00}'), (LVT, "LVT", '\u{ac01}'), (EB, "E_Base", '\u{261d}'),
    (EM, "E_Modifier", '\u{1f3fb}'), (EBG, "E_Base_GAZ", '\u{1f466}'), (GAZ, "Glue_After_Zwj", '\u{2640}'), (XX, "Other", 'a'),
];

/// Is there a boundary before `s[i]`, 0 < i < len?
pub fn grapheme_break(s: &[G], i: usize, extended: bool) -> bool {
    let (a, b) = (s[i - 1], s[i]);
    if a == CR && b == LF { return false } // GB3
    if matches!(a, CN | CR | LF) || matches!(b, CN | CR | LF) { return true } // GB4, GB5
    if a == L && matches!(b, L | V | LV | LVT) { return false } // GB6
    if matches!(a, LV | V) && matches!(b, V | T) { return false } // GB7
    if matches!(a, LVT | T) && b == T { return false } // GB8
    if matches!(b, EX | ZWJ) { return false } // GB9
    if extended && b == SM { return false } // GB9a
    if extended && a == PP { return false } // GB9b
    if b == EM {
        // GB10: (E_Base | EBG) Extend* x E_Modifier
        let k = s[..i].iter().rposition(|c| *c != EX);
        if k.map_or(false, |k| matches!(s[k], EB | EBG)) { return false }
    }
    if a == ZWJ && matches!(b, GAZ | EBG) { return false } // GB11
    if b == RI && s[..i].iter().rev().take_while(|c| **c == RI).count() % 2 == 1 { return false } // GB12, GB13
    true // GB999
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[allow(non_camel_case_types)]
pub enum Wb { CR, LF, NL, Extend, ZWJ, RI, FO, KA, HL, LE, SQ, DQ, MB, ML, MN, NU, EX, EB, EM, EBG, GAZ, XX }
pub const WS: [(Wb, &str, char); 22] = [
    (Wb::CR, "CR", '\r'), (Wb::LF, "LF", '\n'), (Wb::NL, "Newline", '\u{85}'), (Wb::Extend, "Extend", '\u{301}'), (Wb::ZWJ, "ZWJ", '\u{200d}'),
    (Wb::RI, "Regional_Indicator", '\u{1f1e6}'), (Wb::FO, "Format", '\u{ad}'), (Wb::KA, "Katakana", '\u{30a1}'), (Wb::HL, "Hebrew_Letter", '\u{5d0}'),
    (Wb::LE, "ALetter", 'a'), (Wb::SQ, "Single_Quote", '\''), (Wb::DQ, "Double_Quote", '"'), (Wb::MB, "MidNumLet", '.'), (Wb::ML, "MidLetter", ':'),
    (Wb::MN, "MidNum", ','), (Wb::NU, "Numeric", '1'), (Wb::EX, "ExtendNumLet", '_'), (Wb::EB, "E_Base", '\u{261d}'),
    (Wb::EM, "E_Modifier", '\u{1f3fb}'), (Wb::EBG, "E_Base_GAZ", '\u{1f466}'), (Wb::GAZ, "Glue_After_Zwj", '\u{2640}'), (Wb::XX, "Other", ' '),
];

/// Is there a word boundary before `s[i]`, 0 < i < len?
pub fn word_break(s: &[Wb], i: usize) -> bool {
    use Wb::*;
    let (p, n) = (s[i - 1], s[i]);
    if p == CR && n == LF { return false } // WB3
    if matches!(p, NL | CR | LF) || matches!(n, NL | CR | LF) { return true } // WB3a, WB3b
    if p == ZWJ && matches!(n, GAZ | EBG) { return false } // WB3c
    let ign = |c: Wb| matches!(c, Extend | FO | ZWJ);
    let end = |c: Wb| matches!(c, NL | CR | LF);
    if ign(n) { return false } // WB4: n belongs to what is before it
    // WB4: positions that count. An ignorable counts only where nothing before can absorb it.
    let counts = |k: usize| !ign(s[k]) || k == 0 || end(s[k - 1]);
    let before: Vec<Wb> = (0..i).rev().filter(|k| counts(*k)).map(|k| s[k]).collect();
    let after: Vec<Wb> = (i..s.len()).filter(|k| counts(*k)).map(|k| s[k]).collect();
    let (a, b) = (before[0], after[0]);
    let a2 = before.get(1).copied();
    let b2 = after.get(1).copied();
    let al = |c: Wb| matches!(c, LE | HL);
    let al_o = |c: Option<Wb>| c.map_or(false, al);
    let mnlq = |c: Wb| matches!(c, MB | SQ);
    if al(a) && al(b) { return false } // WB5
    if al(a) && (b == ML || mnlq(b)) && al_o(b2) { return false } // WB6
    if al_o(a2) && (a == ML || mnlq(a)) && al(b) { return false } // WB7
    if a == HL && b == SQ { return false } // WB7a
    if a == HL && b == DQ && b2 == Some(HL) { return false } // WB7b
    if a2 == Some(HL) && a == DQ && b == HL { return false } // WB7c
    if a == NU && b == NU { return false } // WB8
    if al(a) && b == NU { return false } // WB9
    if a == NU && al(b) { return false } // WB10
    if a2 == Some(NU) && (a == MN || mnlq(a)) && b == NU { return false } // WB11
    if a == NU && (b == MN || mnlq(b)) && b2 == Some(NU) { return false } // WB12
    if a == KA && b == KA { return false } // WB13
    if matches!(a, LE | HL | NU | KA | EX) && b == EX { return false } // WB13a
    if a == EX && matches!(b, LE | HL | NU | KA) { return false } // WB13b
    if matches!(a, EB | EBG) && b == EM { return false } // WB14
    if b == RI && before.iter().take_while(|c| **c == RI).count() % 2 == 1 { return false } // WB15, WB16
    true // WB999
}

/// Byte offsets of the boundaries of a non-empty string, with both ends.
pub fn bounds<C: Copy>(chars: &[char], cls: &[C], f: impl Fn(&[C], usize) -> bool) -> Vec<usize> {
    let mut v = vec![];
    let mut o = 0;
    for i in 0..chars.len() {
        if i == 0 || f(cls, i) {
            v.push(o)
        }
        o += chars[i].len_utf8();
    }
    if o > 0 {
        v.push(o)
    }
    v
}

pub struct Tables {
    pub g: Vec<G>,
    pub w: Vec<Wb>,
}
impl Tables {
    pub fn load() -> &'static Tables {
        let mut t = Tables { g: vec![XX; 0x110000], w: vec![Wb::XX; 0x110000] };
        for (a, b, v) in data::lines("gcb.txt") {
            let k = GS.iter().find(|x| x.1 == v).unwrap().0;
            t.g[a as usize..=b as usize].fill(k);
        }
        for (a, b, v) in data::lines("wb.txt") {
            let k = WS.iter().find(|x| x.1 == v).unwrap().0;
            t.w[a as usize..=b as usize].fill(k);
        }
        for x in GS {
            assert_eq!(t.g[x.2 as usize], x.0);
        }
        for x in WS {
            assert_eq!(t.w[x.2 as usize], x.0);
        }
        Box::leak(Box::new(t))
    }
    pub fn graphemes(&self, s: &[char], extended: bool) -> Vec<usize> {
        let c: Vec<G> = s.iter().map(|c| self.g[*c as usize]).collect();
        bounds(s, &c, |c, i| grapheme_break(c, i, extended))
    }
    pub fn words(&self, s: &[char]) -> Vec<usize> {
        let c: Vec<Wb> = s.iter().map(|c| self.w[*c as usize]).collect();
        bounds(s, &c, word_break)
    }
}
