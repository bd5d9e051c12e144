#!/usr/bin/env python3
"""Builds /verif/refdata from sources other than rust-unic's own tables.

Run once by hand (the results are committed); the inputs are in this sandbox only:
  RS  regex-syntax 0.5.6 (generated from ucd-10.0.0): age, general category, binary properties, scripts
  GO  golang.org/x/text 0.8.0 and x/net/idna, built with their tables10.0.0.go, dumped per scalar by
      tools/refdata_go (names, bidi class, ccc, NFD, NFKD, NFC, IDNA status and mapping)
  PL  perl Unicode::UCD (Unicode 15.0), dumped by tools/refdata_perl.pl, restricted to the characters
      with Age <= 10.0 and corrected by the published changes since (listed below, each with its reason)
"""
import re, sys, os
RS = sys.argv[1]      # .../regex-syntax-0.5.6/src/unicode_tables
D = sys.argv[2]       # folder of dumps: go_*.txt and the Perl *.txt
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "refdata")
N = 0x110000

def rs_tables(f):
    txt = open(os.path.join(RS, f)).read()
    out = {}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] = &\[(.*?)\];", txt, re.S):
        rs = []
        for a, b in re.findall(r"\('((?:\\.|\\u\{\w+\}|[^'\\]))', '((?:\\.|\\u\{\w+\}|[^'\\]))'\)", m[2]):
            def c(s):
                if s.startswith("\\u"): return int(s[3:-1], 16)
                if s.startswith("\\"): return {"t": 9, "n": 10, "r": 13, "\\": 92, "'": 39, "0": 0, '"': 34}[s[1]]
                return ord(s)
            rs.append((c(a), c(b)))
        n = len(re.findall(r"\('", m[2]))
        assert n == len(rs) or "'('" in m[2] or m[2].count("('") == n, (m[1], n, len(rs))
        out[m[1]] = rs
    return out

def expand(rs):
    s = bytearray(N)
    for a, b in rs:
        for i in range(a, b + 1): s[i] = 1
    return s

def write(name, vals, default, head):
    """vals: per code point value (str); surrogates skipped (no scalar value)."""
    with open(os.path.join(OUT, name + ".txt"), "w") as f:
        f.write(f"# {head}\n")
        i = 0
        while i < N:
            v = vals[i]
            if v == default or 0xD800 <= i < 0xE000:
                i += 1; continue
            j = i
            while j + 1 < N and vals[j + 1] == v and not (0xD800 <= j + 1 < 0xE000): j += 1
            f.write(f"{i:04X};{v}\n" if i == j else f"{i:04X}..{j:04X};{v}\n")
            i = j + 1

def perl(name):
    v = [None] * N
    for l in open(os.path.join(D, name + ".txt"), encoding="utf-8"):
        if l.startswith("#"): continue
        r, x = l.rstrip("\n").split(";", 1)
        a, b = (int(y, 16) for y in r.split(".."))
        for i in range(a, b + 1): v[i] = x
    return v
def go(name):
    v = [""] * N
    for l in open(os.path.join(D, f"go_{name}.txt"), encoding="utf-8"):
        c, x = l.rstrip("\n").split(";", 1)
        v[int(c, 16)] = x
    return v

# ---- age
age_t = rs_tables("age.rs")
age = [""] * N
for k, rs in age_t.items():
    for a, b in rs:
        for i in range(a, b + 1): age[i] = k[1:].replace("_", ".")
write("age", age, "", "Age, Unicode 10.0.0 (regex-syntax 0.5.6)")
old = [bool(a) for a in age]           # assigned (or reserved for good) by 10.0
# ---- general category
GC = dict(UPPERCASE_LETTER="Lu", LOWERCASE_LETTER="Ll", TITLECASE_LETTER="Lt", MODIFIER_LETTER="Lm", OTHER_LETTER="Lo",
    NONSPACING_MARK="Mn", SPACING_MARK="Mc", ENCLOSING_MARK="Me", DECIMAL_NUMBER="Nd", LETTER_NUMBER="Nl", OTHER_NUMBER="No",
    CONNECTOR_PUNCTUATION="Pc", DASH_PUNCTUATION="Pd", OPEN_PUNCTUATION="Ps", CLOSE_PUNCTUATION="Pe", INITIAL_PUNCTUATION="Pi",
    FINAL_PUNCTUATION="Pf", OTHER_PUNCTUATION="Po", MATH_SYMBOL="Sm", CURRENCY_SYMBOL="Sc", MODIFIER_SYMBOL="Sk", OTHER_SYMBOL="So",
    SPACE_SEPARATOR="Zs", LINE_SEPARATOR="Zl", PARAGRAPH_SEPARATOR="Zp", CONTROL="Cc", FORMAT="Cf", PRIVATE_USE="Co", UNASSIGNED="Cn")
gct = rs_tables("general_category.rs")
gc = ["Cn"] * N
for k, v in GC.items():
    for a, b in gct[k]:
        for i in range(a, b + 1): gc[i] = v
write("gc", gc, "Cn", "General_Category, Unicode 10.0.0 (regex-syntax 0.5.6)")
# ---- binary properties
bt = rs_tables("property_bool.rs")
B = {k: expand(v) for k, v in bt.items()}
def wbool(name, s, head): write(name, ["Y" if x else "" for x in s], "", head)
for k, n in dict(ALPHABETIC="alphabetic", WHITE_SPACE="white_space", LOWERCASE="lowercase", UPPERCASE="uppercase", CASED="cased",
    CASE_IGNORABLE="case_ignorable", CHANGES_WHEN_CASEFOLDED="cwcf", CHANGES_WHEN_CASEMAPPED="cwcm", CHANGES_WHEN_LOWERCASED="cwl",
    CHANGES_WHEN_TITLECASED="cwt", CHANGES_WHEN_UPPERCASED="cwu", ID_START="id_start", ID_CONTINUE="id_continue", XID_START="xid_start",
    XID_CONTINUE="xid_continue", PATTERN_SYNTAX="pattern_syntax", PATTERN_WHITE_SPACE="pattern_white_space", BIDI_CONTROL="bidi_control").items():
    wbool(n, B[k], f"{k}, Unicode 10.0.0 (regex-syntax 0.5.6)")
wbool("control", [g == "Cc" for g in gc], "gc=Cc, Unicode 10.0.0 (regex-syntax 0.5.6)")
wbool("numeric", [g in ("Nd", "Nl", "No") for g in gc], "gc=Nd,Nl,No, Unicode 10.0.0 (regex-syntax 0.5.6)")
wbool("alphanumeric", [bool(B["ALPHABETIC"][i]) or gc[i] in ("Nd", "Nl", "No") for i in range(N)], "Alphabetic or gc=Nd,Nl,No")
# ---- Go
names = go("name")
write("name", names, "", "Name, Unicode 10.0.0 (x/text/unicode/runenames 10.0.0)")
CL = "L R EN ES ET AN CS B S WS ON BN NSM AL Control numClass LRO RLO LRE RLE PDF LRI RLI FSI PDI".split()
bc = [CL[int(x)] if x else "" for x in go("bidi")]
write("bidi_class", bc, "L", "Bidi_Class, Unicode 10.0.0 (x/text/unicode/bidi 10.0.0)")
write("ccc", go("ccc"), "0", "Canonical_Combining_Class, Unicode 10.0.0 (x/text/unicode/norm 10.0.0)")
ident = ["%04X" % i for i in range(N)]
for f in ("nfd", "nfkd"):
    v = go(f)
    write(f, ["" if v[i] == ident[i] or 0xAC00 <= i <= 0xD7A3 else v[i] for i in range(N)], "",
          f"{f.upper()} of each single character other than itself, Hangul syllables left out (x/text/unicode/norm 10.0.0)")
nfd, nfc = go("nfd"), go("nfc")
# Primary composites: NFC(c) = c while NFD(c) != c; the pair is (NFC of all but the last, the last).
back = {nfd[i]: i for i in range(N) if nfd[i] and nfc[i] == ident[i]}
comp = [""] * N
for i in range(N):
    if nfd[i] and nfc[i] == ident[i] and nfd[i] != ident[i] and not 0xAC00 <= i <= 0xD7A3:
        d = nfd[i].split()
        first = back[" ".join(d[:-1])]
        comp[i] = "%04X %s" % (first, d[-1])
dm = perl("Decomposition_Mapping"); dt = perl("Decomposition_Type")
for i in range(N):
    if comp[i]:
        assert dm[i] == " ".join("%X" % int(x, 16) for x in comp[i].split()), (hex(i), comp[i], dm[i])
write("compose", comp, "", "Primary composites: the pair that composes to each (x/text/unicode/norm 10.0.0, agrees with Perl)")
idna = [x.replace(" NV8;", ";").replace(" XV8;", ";") for x in go("idna")]   # IDNA2008 exclusions are not part of UTS #46 processing
write("idna", idna, "disallowed;", "IDNA status;mapping, UTS #46 10.0.0 (x/net/idna 10.0.0)")
# ---- Perl, characters of 10.0 only
def p10(name, default):
    v = perl(name)
    return [v[i] if old[i] else default for i in range(N)]
DT = dict(Canonical="Can", Compat="Com", Circle="Enc", Final="Fin", Font="Font", Fraction="Fra", Initial="Init", Isolated="Iso",
    Medial="Med", Narrow="Nar", noBreak="Nb", Nobreak="Nb", Small="Sml", Square="Sqr", Sub="Sub", Super="Sup", Vertical="Vert", Wide="Wide")
dt10 = p10("Decomposition_Type", "None")
DTL = {k.lower(): v for k, v in DT.items()}
DTL["none"] = ""
write("decomposition_type", [DTL[x.lower()] for x in dt10], "", "Decomposition_Type (Perl Unicode 15.0, characters of 10.0; the property is stable)")
wbool("bidi_mirrored", [x == "Y" or i == 0x29A1 for i, x in enumerate(p10("Bidi_Mirrored", "N"))]   # U+29A1: mirrored until 10.0
     , "Bidi_Mirrored (Perl Unicode 15.0, characters of 10.0; U+29A1 was mirrored then)")
bl = [x or "No_Block" for x in perl("Block")]
bl10 = {b for i, b in enumerate(bl) if old[i]}
for i in range(N):
    if bl[i] not in bl10 or 0x11740 <= i <= 0x1174F: bl[i] = "No_Block"     # Ahom grew to U+174F in 14.0
write("block", [x if x not in ("No_Block", "No Block") else "" for x in bl], "", "Block (Perl Unicode 15.0; blocks of 10.0 are those with a character of 10.0)")
na = p10("Name_Alias", "")
na[0x19] = "END OF MEDIUM: control|EOM: abbreviation"      # EM added in 14.0
for i in (0x616, 0x1BBD, 0xAA6E): na[i] = ""               # corrections published after 10.0
write("name_alias", [x or "" for x in na], "", "Name_Alias (Perl Unicode 15.0, characters of 10.0)")
# Emoji 5.0: no reference newer than the published lists. Perl's (Emoji 15) corrected for what came later.
EMOJI_B_10 = [(0x261D,0x261D),(0x26F9,0x26F9),(0x270A,0x270D),(0x1F385,0x1F385),(0x1F3C2,0x1F3C4),(0x1F3C7,0x1F3C7),(0x1F3CA,0x1F3CC),
    (0x1F442,0x1F443),(0x1F446,0x1F450),(0x1F466,0x1F469),(0x1F46E,0x1F46E),(0x1F470,0x1F478),(0x1F47C,0x1F47C),(0x1F481,0x1F483),
    (0x1F485,0x1F487),(0x1F4AA,0x1F4AA),(0x1F574,0x1F575),(0x1F57A,0x1F57A),(0x1F590,0x1F590),(0x1F595,0x1F596),(0x1F645,0x1F647),
    (0x1F64B,0x1F64F),(0x1F6A3,0x1F6A3),(0x1F6B4,0x1F6B6),(0x1F6C0,0x1F6C0),(0x1F6CC,0x1F6CC),(0x1F918,0x1F91C),(0x1F91E,0x1F91F),
    (0x1F926,0x1F926),(0x1F930,0x1F939),(0x1F93D,0x1F93E),(0x1F9D1,0x1F9DD)]
EB = expand(EMOJI_B_10); EM = expand([(0x1F3FB, 0x1F3FF)])
GAZ = expand([(x, x) for x in (0x2640,0x2642,0x2695,0x2696,0x2708,0x2764,0x1F308,0x1F33E,0x1F373,0x1F393,0x1F3A4,0x1F3A8,0x1F3EB,0x1F3ED,
    0x1F48B,0x1F4BB,0x1F4BC,0x1F527,0x1F52C,0x1F5E8,0x1F680,0x1F692)])   # last elements of emoji-zwj-sequences 5.0
EBG = expand([(0x1F466, 0x1F469)])
def emoji_break(i): return "EBG" if EBG[i] else "EB" if EB[i] else "EM" if EM[i] else "GAZ" if GAZ[i] else ""
GE, PCM, DI = B["GRAPHEME_EXTEND"], B["PREPENDED_CONCATENATION_MARK"], B["DEFAULT_IGNORABLE_CODE_POINT"]
insc, hst, lb = p10("InSC", "Other"), perl("Hangul_Syllable_Type"), p10("lb", "XX")
sc = {k: expand(v) for k, v in rs_tables("script.rs").items() if k in ("KATAKANA", "HIRAGANA", "HEBREW")}
HST = dict(Leading_Jamo="L", Vowel_Jamo="V", Trailing_Jamo="T", LV_Syllable="LV", LVT_Syllable="LVT", L="L", V="V", T="T", LV="LV", LVT="LVT")
NOSM = expand([(a, b) for a, b in ((0x102B,0x102C),(0x1038,0x1038),(0x1062,0x1064),(0x1067,0x106D),(0x1083,0x1083),(0x1087,0x108C),
    (0x108F,0x108F),(0x109A,0x109C),(0x1A61,0x1A61),(0x1A63,0x1A64),(0xAA7B,0xAA7B),(0xAA7D,0xAA7D))])
RI = B["REGIONAL_INDICATOR"]
LN = dict(XX="Other", CN="Control", EX="Extend", PP="Prepend", SM="SpacingMark", RI="Regional_Indicator", EB="E_Base", EBG="E_Base_GAZ",
    EM="E_Modifier", GAZ="Glue_After_Zwj", DQ="Double_Quote", SQ="Single_Quote", MB="MidNumLet", ML="MidLetter", MN="MidNum", NU="Numeric",
    NL="Newline", FO="Format", KA="Katakana", HL="Hebrew_Letter", LE="ALetter")
SLN = dict(XX="Other", EX="Extend", SE="Sep", FO="Format", SP="Sp", LO="Lower", UP="Upper", LE="OLetter", NU="Numeric", AT="ATerm",
    SC="SContinue", ST="STerm", CL="Close")
def gcb(i):   # UAX #29 revision 31 (Unicode 10.0), Table 2
    if i == 13: return "CR"
    if i == 10: return "LF"
    if i == 0x200D: return "ZWJ"
    if emoji_break(i): return emoji_break(i)
    if GE[i]: return "EX"
    if RI[i]: return "RI"
    if PCM[i] or insc[i] in ("Consonant_Preceding_Repha", "Consonant_Prefixed"): return "PP"
    if gc[i] in ("Zl", "Zp", "Cc", "Cf") or gc[i] == "Cn" and DI[i]: return "CN"
    if (gc[i] == "Mc" or i in (0xE33, 0xEB3)) and not NOSM[i]: return "SM"
    return HST.get(hst[i], "XX")
write("gcb", [LN.get(gcb(i), gcb(i)) for i in range(N)], "Other", "Grapheme_Cluster_Break, derived as in UAX #29 revision 31 from 10.0 tables (regex-syntax 0.5.6; InSC, hst: Perl)")
wb15, sb15 = p10("WB", "Other"), p10("SB", "Other")
WBA = dict(Other="XX", Double_Quote="DQ", Single_Quote="SQ", MidNumLet="MB", MidLetter="ML", MidNum="MN", Numeric="NU", ExtendNumLet="EX",
    Newline="NL", Perl_Tailored_HSpace="XX")
AL36 = expand([(0x2C2,0x2C5),(0x2D2,0x2D7),(0x2DE,0x2DF),(0x2ED,0x2ED),(0x2EF,0x2FF),(0xA720,0xA721),(0xA789,0xA78A),(0xAB5B,0xAB5B),(0x5F3,0x5F3)])
KATA = expand([(0x3031,0x3035),(0x309B,0x309C),(0x30A0,0x30A0),(0x30FC,0x30FC),(0xFF70,0xFF70)])
def wb(i):    # UAX #29 revision 31 (Unicode 10.0), Table 3
    if i == 13: return "CR"
    if i == 10: return "LF"
    if i == 0x200D: return "ZWJ"
    if emoji_break(i): return emoji_break(i)
    if GE[i] or gc[i] == "Mc": return "Extend"
    if RI[i]: return "RI"
    if gc[i] == "Cf" and i not in (0x200B,): return "FO"
    if sc["KATAKANA"][i] or KATA[i]: return "KA"
    if sc["HEBREW"][i] and gc[i] == "Lo": return "HL"
    if (B["ALPHABETIC"][i] or AL36[i]) and not B["IDEOGRAPHIC"][i] and lb[i] != "SA" and not sc["HIRAGANA"][i]: return "LE"
    if 0xFF10 <= i <= 0xFF19: return "XX"        # lb=NU, hence Numeric, only since later versions
    if i == 0x55F: return "XX"                   # MidLetter since 11.0
    v = wb15[i]
    return WBA.get(v, "XX") if v not in ("ALetter", "Extend", "Katakana", "Hebrew_Letter") else "XX"
write("wb", ["ExtendNumLet" if wb(i) == "EX" else LN.get(wb(i), wb(i)) for i in range(N)], "Other", "Word_Break, derived as in UAX #29 revision 31 from 10.0 tables (regex-syntax 0.5.6; lb and Mid*, Num*: Perl)")
SBA = dict(Other="XX", CR="CR", LF="LF", Sep="SE", Sp="SP", Numeric="NU", ATerm="AT", SContinue="SC", STerm="ST", Close="CL")
def sb(i):    # UAX #29 revision 31 (Unicode 10.0), Table 4
    if i == 13: return "CR"
    if i == 10: return "LF"
    if GE[i] or gc[i] == "Mc" or i == 0x200D: return "EX"
    if i in (0x85, 0x2028, 0x2029): return "SE"
    if gc[i] == "Cf": return "FO"
    if B["WHITE_SPACE"][i]: return "SP"
    if B["LOWERCASE"][i]: return "LO"
    if gc[i] == "Lt" or B["UPPERCASE"][i]: return "UP"
    if B["ALPHABETIC"][i] or i in (0xA0, 0x5F3): return "LE"
    if 0xFF10 <= i <= 0xFF19: return "XX"
    if i in (0x2E, 0x2024, 0xFE52, 0xFF0E): return "AT"
    if B["SENTENCE_TERMINAL"][i]: return "ST"
    v = sb15[i]
    return SBA.get(v, "XX") if v not in ("STerm", "ATerm", "Lower", "Upper", "OLetter", "Extend") else "XX"
write("sb", [SLN.get(sb(i), sb(i)) for i in range(N)], "Other", "Sentence_Break, derived as in UAX #29 revision 31 from 10.0 tables (regex-syntax 0.5.6; Close, SContinue, Numeric: Perl)")

LATER_EMOJI = {0x265F, 0x267E, 0x26A7}    # Emoji 11.0, 11.0, 13.0
wbool("emoji", [x == "Y" and i not in LATER_EMOJI for i, x in enumerate(p10("Emoji", "N"))], "Emoji 5.0 (Perl Emoji 15.0, characters of 10.0, less U+265F, U+267E, U+26A7)")
wbool("emoji_presentation", [x == "Y" for x in p10("Emoji_Presentation", "N")], "Emoji_Presentation (Perl Emoji 15.0, characters of 10.0)")
wbool("emoji_modifier", [x == "Y" for x in p10("Emoji_Modifier", "N")], "Emoji_Modifier (Perl Emoji 15.0)")
wbool("emoji_modifier_base", EB, "Emoji_Modifier_Base, Emoji 5.0")
EC = expand([(0x23, 0x23), (0x2A, 0x2A), (0x30, 0x39), (0x1F1E6, 0x1F1FF), (0x1F3FB, 0x1F3FF)])
pc = p10("Emoji_Component", "N")
for i in range(N): assert not EC[i] or pc[i] == "Y"
wbool("emoji_component", EC, "Emoji_Component, Emoji 5.0 (ZWJ, U+20E3, VS-16 and tags are components since 11.0)")
