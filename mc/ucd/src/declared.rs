//! C05: property types that a user declares with `char_property!`.
use crate::names::{case_variants, near};
use crate::*;
use unic_char_property::*;

/// What was declared, as text, and the type's own answers.
struct Declared {
    ty: &'static str,
    want: [&'static str; 3],
    names: [&'static str; 3],
    /// abbreviated, long and human name of each value as declared
    values: Vec<[&'static str; 3]>,
    /// the value under its own name in the type, in the module of short names and in that of long ones, as an index
    paths: Vec<[usize; 3]>,
    /// its names by the methods, its display and debug texts
    told: Vec<[String; 5]>,
    parse: fn(&str) -> Option<usize>,
    debug: Vec<&'static str>,
}

macro_rules! declared {
    ($v:ident, $m:ident, $t:ident, $prop:expr, $([$n:ident $a:ident $as:literal $l:ident $ls:literal $h:literal])*) => {
        mod $m {
            use unic_char_property::char_property;
            char_property! {
                pub enum $t {
                    abbr => $prop[0];
                    long => $prop[1];
                    human => $prop[2];
                    $(
                        #[allow(dead_code)]
                        $n {
                            abbr => $a,
                            long => $l,
                            human => $h,
                        }
                    )*
                }
                #[allow(unused_imports)]
                pub mod short for abbr;
                #[allow(unused_imports)]
                pub mod long for long;
            }
            impl unic_char_property::PartialCharProperty for $t {
                fn of(c: char) -> Option<Self> {
                    use unic_char_property::EnumeratedCharProperty;
                    Self::all_values().get(c as usize).copied()
                }
            }
        }
        {
            use $m::$t;
            fn index(x: $t) -> usize {
                $t::all_values().iter().position(|y| *y == x).unwrap_or(usize::MAX)
            }
            $v.push(Declared {
                ty: stringify!($t),
                want: $prop,
                names: [$t::prop_abbr_name(), $t::prop_long_name(), $t::prop_human_name()],
                values: vec![$([$as, $ls, $h]),*],
                paths: vec![$([index($t::$n), index($m::short::$a), index($m::long::$l)]),*],
                told: $t::all_values().iter().map(|x| [x.abbr_name().to_string(), x.long_name().into(), x.human_name().into(), x.to_string(), format!("{x:?}")]).collect(),
                parse: |s| s.parse::<$t>().ok().map(index),
                debug: vec![$(stringify!($n)),*],
            });
        }
    };
}

fn all() -> Vec<Declared> {
    let mut v = vec![];
    declared!(v, one, One, ["o", "One_Value", "One Value"], [Only On "On" Only_One "Only_One" "the only one"]);
    declared!(v, same, Same, ["s", "s", "s"], [A A "A" A "A" "A"] [B B "B" Bee "Bee" "B"] [C Cc "Cc" Cc "Cc" "A"]);
    declared!(v, prefix, Prefix, ["pre", "Prefix", "Prefix or Part"],
        [X A "A" AA "AA" "a"] [Y AAA "AAA" AAAA "AAAA" "aa"] [Z AB "AB" AAB "AAB" "aaa"] [W BA "BA" BAA "BAA" "aaaa"] [V B "B" ABAB "ABAB" ""]);
    declared!(v, crossed, Crossed, ["x", "Crossed_Names", "Crossed"],
        [Ab Xa "Xa" Xlong "Xlong" "Ya"] [Xa Ya "Ya" Ylong "Ylong" "Ab"] [Ylong Ab "Ab" Along "Along" "Xlong"]);
    declared!(v, marks, Marks, ["m_k", "Marks_", "M\u{e4}rks"],
        [U _a "_a" _a_ "_a_" "_"] [T a_ "a_" a__a "a__a" "__"] [S a1 "a1" a_1 "a_1" "1"] [R self_ "self_" yes "yes" "yes \u{1f600}"] [Q no "no" None "None" " none "]);
    declared!(v, letters, Letters, ["\u{e9}", "\u{c9}t\u{e9}", ""],
        [P é "\u{e9}" Été "\u{c9}t\u{e9}" "\u{e9}t\u{e9}"] [O straße "stra\u{df}e" k "k" "\u{212a}"] [N s "s" к "\u{43a}" "\u{17f}"]);
    declared!(v, lengthy, Lengthy, ["l", "L", "l"],
        [L15 Extended_Graphx "Extended_Graphx" Extended_Graphex "Extended_Graphex" "Extended_Graphx"] [L17 Extended_Graphemx "Extended_Graphemx" Extended_Graphemex "Extended_Graphemex" "Extended_Graphemx"] [L31 Extended_Grapheme_Cluster_Prepx "Extended_Grapheme_Cluster_Prepx" Extended_Grapheme_Cluster_Prepex "Extended_Grapheme_Cluster_Prepex" "Extended_Grapheme_Cluster_Prepx"] [L33 Extended_Grapheme_Cluster_Prepenx "Extended_Grapheme_Cluster_Prepenx" Extended_Grapheme_Cluster_Prependx "Extended_Grapheme_Cluster_Prependx" "Extended_Grapheme_Cluster_Prepenx"] [L63 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphex "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphex" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphemx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphemx" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphex"] [L65 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphemex "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphemex" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_x "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_x" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Graphemex"] [L127 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepenx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepenx" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prependx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prependx" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepenx"] [L129 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_x "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_x" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Sx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Sx" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_x"] [L255 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cx" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clx" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cx"] [L257 Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clux "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clux" Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clusx "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clusx" "Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Cluster_Prepend_Spacing_Mark_Extended_Grapheme_Clux"]);
    declared!(v, many, Many, ["many", "Many_Values", "Many Values"],
            [V0 A0 "A0" Long_Name_0 "Long_Name_0" "Value Number 0"]
            [V1 A1 "A1" Long_Name_1 "Long_Name_1" "Value Number 1"]
            [V2 A2 "A2" Long_Name_2 "Long_Name_2" "Value Number 2"]
            [V3 A3 "A3" Long_Name_3 "Long_Name_3" "Value Number 3"]
            [V4 A4 "A4" Long_Name_4 "Long_Name_4" "Value Number 4"]
            [V5 A5 "A5" Long_Name_5 "Long_Name_5" "Value Number 5"]
            [V6 A6 "A6" Long_Name_6 "Long_Name_6" "Value Number 6"]
            [V7 A7 "A7" Long_Name_7 "Long_Name_7" "Value Number 7"]
            [V8 A8 "A8" Long_Name_8 "Long_Name_8" "Value Number 8"]
            [V9 A9 "A9" Long_Name_9 "Long_Name_9" "Value Number 9"]
            [V10 A10 "A10" Long_Name_10 "Long_Name_10" "Value Number 10"]
            [V11 A11 "A11" Long_Name_11 "Long_Name_11" "Value Number 11"]
            [V12 A12 "A12" Long_Name_12 "Long_Name_12" "Value Number 12"]
            [V13 A13 "A13" Long_Name_13 "Long_Name_13" "Value Number 13"]
            [V14 A14 "A14" Long_Name_14 "Long_Name_14" "Value Number 14"]
            [V15 A15 "A15" Long_Name_15 "Long_Name_15" "Value Number 15"]
            [V16 A16 "A16" Long_Name_16 "Long_Name_16" "Value Number 16"]
            [V17 A17 "A17" Long_Name_17 "Long_Name_17" "Value Number 17"]
            [V18 A18 "A18" Long_Name_18 "Long_Name_18" "Value Number 18"]
            [V19 A19 "A19" Long_Name_19 "Long_Name_19" "Value Number 19"]
            [V20 A20 "A20" Long_Name_20 "Long_Name_20" "Value Number 20"]
            [V21 A21 "A21" Long_Name_21 "Long_Name_21" "Value Number 21"]
            [V22 A22 "A22" Long_Name_22 "Long_Name_22" "Value Number 22"]
            [V23 A23 "A23" Long_Name_23 "Long_Name_23" "Value Number 23"]
            [V24 A24 "A24" Long_Name_24 "Long_Name_24" "Value Number 24"]
            [V25 A25 "A25" Long_Name_25 "Long_Name_25" "Value Number 25"]
            [V26 A26 "A26" Long_Name_26 "Long_Name_26" "Value Number 26"]
            [V27 A27 "A27" Long_Name_27 "Long_Name_27" "Value Number 27"]
            [V28 A28 "A28" Long_Name_28 "Long_Name_28" "Value Number 28"]
            [V29 A29 "A29" Long_Name_29 "Long_Name_29" "Value Number 29"]
            [V30 A30 "A30" Long_Name_30 "Long_Name_30" "Value Number 30"]
            [V31 A31 "A31" Long_Name_31 "Long_Name_31" "Value Number 31"]
            [V32 A32 "A32" Long_Name_32 "Long_Name_32" "Value Number 32"]
            [V33 A33 "A33" Long_Name_33 "Long_Name_33" "Value Number 33"]
            [V34 A34 "A34" Long_Name_34 "Long_Name_34" "Value Number 34"]
            [V35 A35 "A35" Long_Name_35 "Long_Name_35" "Value Number 35"]
            [V36 A36 "A36" Long_Name_36 "Long_Name_36" "Value Number 36"]
            [V37 A37 "A37" Long_Name_37 "Long_Name_37" "Value Number 37"]
            [V38 A38 "A38" Long_Name_38 "Long_Name_38" "Value Number 38"]
            [V39 A39 "A39" Long_Name_39 "Long_Name_39" "Value Number 39"]
            [V40 A40 "A40" Long_Name_40 "Long_Name_40" "Value Number 40"]
            [V41 A41 "A41" Long_Name_41 "Long_Name_41" "Value Number 41"]
            [V42 A42 "A42" Long_Name_42 "Long_Name_42" "Value Number 42"]
            [V43 A43 "A43" Long_Name_43 "Long_Name_43" "Value Number 43"]
            [V44 A44 "A44" Long_Name_44 "Long_Name_44" "Value Number 44"]
            [V45 A45 "A45" Long_Name_45 "Long_Name_45" "Value Number 45"]
            [V46 A46 "A46" Long_Name_46 "Long_Name_46" "Value Number 46"]
            [V47 A47 "A47" Long_Name_47 "Long_Name_47" "Value Number 47"]
            [V48 A48 "A48" Long_Name_48 "Long_Name_48" "Value Number 48"]
            [V49 A49 "A49" Long_Name_49 "Long_Name_49" "Value Number 49"]
            [V50 A50 "A50" Long_Name_50 "Long_Name_50" "Value Number 50"]
            [V51 A51 "A51" Long_Name_51 "Long_Name_51" "Value Number 51"]
            [V52 A52 "A52" Long_Name_52 "Long_Name_52" "Value Number 52"]
            [V53 A53 "A53" Long_Name_53 "Long_Name_53" "Value Number 53"]
            [V54 A54 "A54" Long_Name_54 "Long_Name_54" "Value Number 54"]
            [V55 A55 "A55" Long_Name_55 "Long_Name_55" "Value Number 55"]
            [V56 A56 "A56" Long_Name_56 "Long_Name_56" "Value Number 56"]
            [V57 A57 "A57" Long_Name_57 "Long_Name_57" "Value Number 57"]
            [V58 A58 "A58" Long_Name_58 "Long_Name_58" "Value Number 58"]
            [V59 A59 "A59" Long_Name_59 "Long_Name_59" "Value Number 59"]
            [V60 A60 "A60" Long_Name_60 "Long_Name_60" "Value Number 60"]
            [V61 A61 "A61" Long_Name_61 "Long_Name_61" "Value Number 61"]
            [V62 A62 "A62" Long_Name_62 "Long_Name_62" "Value Number 62"]
            [V63 A63 "A63" Long_Name_63 "Long_Name_63" "Value Number 63"]
            [V64 A64 "A64" Long_Name_64 "Long_Name_64" "Value Number 64"]
            [V65 A65 "A65" Long_Name_65 "Long_Name_65" "Value Number 65"]
            [V66 A66 "A66" Long_Name_66 "Long_Name_66" "Value Number 66"]
            [V67 A67 "A67" Long_Name_67 "Long_Name_67" "Value Number 67"]
            [V68 A68 "A68" Long_Name_68 "Long_Name_68" "Value Number 68"]
            [V69 A69 "A69" Long_Name_69 "Long_Name_69" "Value Number 69"]
            [V70 A70 "A70" Long_Name_70 "Long_Name_70" "Value Number 70"]
            [V71 A71 "A71" Long_Name_71 "Long_Name_71" "Value Number 71"]
            [V72 A72 "A72" Long_Name_72 "Long_Name_72" "Value Number 72"]
            [V73 A73 "A73" Long_Name_73 "Long_Name_73" "Value Number 73"]
            [V74 A74 "A74" Long_Name_74 "Long_Name_74" "Value Number 74"]
            [V75 A75 "A75" Long_Name_75 "Long_Name_75" "Value Number 75"]
            [V76 A76 "A76" Long_Name_76 "Long_Name_76" "Value Number 76"]
            [V77 A77 "A77" Long_Name_77 "Long_Name_77" "Value Number 77"]
            [V78 A78 "A78" Long_Name_78 "Long_Name_78" "Value Number 78"]
            [V79 A79 "A79" Long_Name_79 "Long_Name_79" "Value Number 79"]
            [V80 A80 "A80" Long_Name_80 "Long_Name_80" "Value Number 80"]
            [V81 A81 "A81" Long_Name_81 "Long_Name_81" "Value Number 81"]
            [V82 A82 "A82" Long_Name_82 "Long_Name_82" "Value Number 82"]
            [V83 A83 "A83" Long_Name_83 "Long_Name_83" "Value Number 83"]
            [V84 A84 "A84" Long_Name_84 "Long_Name_84" "Value Number 84"]
            [V85 A85 "A85" Long_Name_85 "Long_Name_85" "Value Number 85"]
            [V86 A86 "A86" Long_Name_86 "Long_Name_86" "Value Number 86"]
            [V87 A87 "A87" Long_Name_87 "Long_Name_87" "Value Number 87"]
            [V88 A88 "A88" Long_Name_88 "Long_Name_88" "Value Number 88"]
            [V89 A89 "A89" Long_Name_89 "Long_Name_89" "Value Number 89"]
            [V90 A90 "A90" Long_Name_90 "Long_Name_90" "Value Number 90"]
            [V91 A91 "A91" Long_Name_91 "Long_Name_91" "Value Number 91"]
            [V92 A92 "A92" Long_Name_92 "Long_Name_92" "Value Number 92"]
            [V93 A93 "A93" Long_Name_93 "Long_Name_93" "Value Number 93"]
            [V94 A94 "A94" Long_Name_94 "Long_Name_94" "Value Number 94"]
            [V95 A95 "A95" Long_Name_95 "Long_Name_95" "Value Number 95"]
            [V96 A96 "A96" Long_Name_96 "Long_Name_96" "Value Number 96"]
            [V97 A97 "A97" Long_Name_97 "Long_Name_97" "Value Number 97"]
            [V98 A98 "A98" Long_Name_98 "Long_Name_98" "Value Number 98"]
            [V99 A99 "A99" Long_Name_99 "Long_Name_99" "Value Number 99"]
            [V100 A100 "A100" Long_Name_100 "Long_Name_100" "Value Number 100"]
            [V101 A101 "A101" Long_Name_101 "Long_Name_101" "Value Number 101"]
            [V102 A102 "A102" Long_Name_102 "Long_Name_102" "Value Number 102"]
            [V103 A103 "A103" Long_Name_103 "Long_Name_103" "Value Number 103"]
            [V104 A104 "A104" Long_Name_104 "Long_Name_104" "Value Number 104"]
            [V105 A105 "A105" Long_Name_105 "Long_Name_105" "Value Number 105"]
            [V106 A106 "A106" Long_Name_106 "Long_Name_106" "Value Number 106"]
            [V107 A107 "A107" Long_Name_107 "Long_Name_107" "Value Number 107"]
            [V108 A108 "A108" Long_Name_108 "Long_Name_108" "Value Number 108"]
            [V109 A109 "A109" Long_Name_109 "Long_Name_109" "Value Number 109"]
            [V110 A110 "A110" Long_Name_110 "Long_Name_110" "Value Number 110"]
            [V111 A111 "A111" Long_Name_111 "Long_Name_111" "Value Number 111"]
            [V112 A112 "A112" Long_Name_112 "Long_Name_112" "Value Number 112"]
            [V113 A113 "A113" Long_Name_113 "Long_Name_113" "Value Number 113"]
            [V114 A114 "A114" Long_Name_114 "Long_Name_114" "Value Number 114"]
            [V115 A115 "A115" Long_Name_115 "Long_Name_115" "Value Number 115"]
            [V116 A116 "A116" Long_Name_116 "Long_Name_116" "Value Number 116"]
            [V117 A117 "A117" Long_Name_117 "Long_Name_117" "Value Number 117"]
            [V118 A118 "A118" Long_Name_118 "Long_Name_118" "Value Number 118"]
            [V119 A119 "A119" Long_Name_119 "Long_Name_119" "Value Number 119"]
            [V120 A120 "A120" Long_Name_120 "Long_Name_120" "Value Number 120"]
            [V121 A121 "A121" Long_Name_121 "Long_Name_121" "Value Number 121"]
            [V122 A122 "A122" Long_Name_122 "Long_Name_122" "Value Number 122"]
            [V123 A123 "A123" Long_Name_123 "Long_Name_123" "Value Number 123"]
            [V124 A124 "A124" Long_Name_124 "Long_Name_124" "Value Number 124"]
            [V125 A125 "A125" Long_Name_125 "Long_Name_125" "Value Number 125"]
            [V126 A126 "A126" Long_Name_126 "Long_Name_126" "Value Number 126"]
            [V127 A127 "A127" Long_Name_127 "Long_Name_127" "Value Number 127"]
            [V128 A128 "A128" Long_Name_128 "Long_Name_128" "Value Number 128"]
            [V129 A129 "A129" Long_Name_129 "Long_Name_129" "Value Number 129"]
            [V130 A130 "A130" Long_Name_130 "Long_Name_130" "Value Number 130"]
            [V131 A131 "A131" Long_Name_131 "Long_Name_131" "Value Number 131"]
            [V132 A132 "A132" Long_Name_132 "Long_Name_132" "Value Number 132"]
            [V133 A133 "A133" Long_Name_133 "Long_Name_133" "Value Number 133"]
            [V134 A134 "A134" Long_Name_134 "Long_Name_134" "Value Number 134"]
            [V135 A135 "A135" Long_Name_135 "Long_Name_135" "Value Number 135"]
            [V136 A136 "A136" Long_Name_136 "Long_Name_136" "Value Number 136"]
            [V137 A137 "A137" Long_Name_137 "Long_Name_137" "Value Number 137"]
            [V138 A138 "A138" Long_Name_138 "Long_Name_138" "Value Number 138"]
            [V139 A139 "A139" Long_Name_139 "Long_Name_139" "Value Number 139"]
            [V140 A140 "A140" Long_Name_140 "Long_Name_140" "Value Number 140"]
            [V141 A141 "A141" Long_Name_141 "Long_Name_141" "Value Number 141"]
            [V142 A142 "A142" Long_Name_142 "Long_Name_142" "Value Number 142"]
            [V143 A143 "A143" Long_Name_143 "Long_Name_143" "Value Number 143"]
            [V144 A144 "A144" Long_Name_144 "Long_Name_144" "Value Number 144"]
            [V145 A145 "A145" Long_Name_145 "Long_Name_145" "Value Number 145"]
            [V146 A146 "A146" Long_Name_146 "Long_Name_146" "Value Number 146"]
            [V147 A147 "A147" Long_Name_147 "Long_Name_147" "Value Number 147"]
            [V148 A148 "A148" Long_Name_148 "Long_Name_148" "Value Number 148"]
            [V149 A149 "A149" Long_Name_149 "Long_Name_149" "Value Number 149"]
            [V150 A150 "A150" Long_Name_150 "Long_Name_150" "Value Number 150"]
            [V151 A151 "A151" Long_Name_151 "Long_Name_151" "Value Number 151"]
            [V152 A152 "A152" Long_Name_152 "Long_Name_152" "Value Number 152"]
            [V153 A153 "A153" Long_Name_153 "Long_Name_153" "Value Number 153"]
            [V154 A154 "A154" Long_Name_154 "Long_Name_154" "Value Number 154"]
            [V155 A155 "A155" Long_Name_155 "Long_Name_155" "Value Number 155"]
            [V156 A156 "A156" Long_Name_156 "Long_Name_156" "Value Number 156"]
            [V157 A157 "A157" Long_Name_157 "Long_Name_157" "Value Number 157"]
            [V158 A158 "A158" Long_Name_158 "Long_Name_158" "Value Number 158"]
            [V159 A159 "A159" Long_Name_159 "Long_Name_159" "Value Number 159"]
            [V160 A160 "A160" Long_Name_160 "Long_Name_160" "Value Number 160"]
            [V161 A161 "A161" Long_Name_161 "Long_Name_161" "Value Number 161"]
            [V162 A162 "A162" Long_Name_162 "Long_Name_162" "Value Number 162"]
            [V163 A163 "A163" Long_Name_163 "Long_Name_163" "Value Number 163"]
            [V164 A164 "A164" Long_Name_164 "Long_Name_164" "Value Number 164"]
            [V165 A165 "A165" Long_Name_165 "Long_Name_165" "Value Number 165"]
            [V166 A166 "A166" Long_Name_166 "Long_Name_166" "Value Number 166"]
            [V167 A167 "A167" Long_Name_167 "Long_Name_167" "Value Number 167"]
            [V168 A168 "A168" Long_Name_168 "Long_Name_168" "Value Number 168"]
            [V169 A169 "A169" Long_Name_169 "Long_Name_169" "Value Number 169"]
            [V170 A170 "A170" Long_Name_170 "Long_Name_170" "Value Number 170"]
            [V171 A171 "A171" Long_Name_171 "Long_Name_171" "Value Number 171"]
            [V172 A172 "A172" Long_Name_172 "Long_Name_172" "Value Number 172"]
            [V173 A173 "A173" Long_Name_173 "Long_Name_173" "Value Number 173"]
            [V174 A174 "A174" Long_Name_174 "Long_Name_174" "Value Number 174"]
            [V175 A175 "A175" Long_Name_175 "Long_Name_175" "Value Number 175"]
            [V176 A176 "A176" Long_Name_176 "Long_Name_176" "Value Number 176"]
            [V177 A177 "A177" Long_Name_177 "Long_Name_177" "Value Number 177"]
            [V178 A178 "A178" Long_Name_178 "Long_Name_178" "Value Number 178"]
            [V179 A179 "A179" Long_Name_179 "Long_Name_179" "Value Number 179"]
            [V180 A180 "A180" Long_Name_180 "Long_Name_180" "Value Number 180"]
            [V181 A181 "A181" Long_Name_181 "Long_Name_181" "Value Number 181"]
            [V182 A182 "A182" Long_Name_182 "Long_Name_182" "Value Number 182"]
            [V183 A183 "A183" Long_Name_183 "Long_Name_183" "Value Number 183"]
            [V184 A184 "A184" Long_Name_184 "Long_Name_184" "Value Number 184"]
            [V185 A185 "A185" Long_Name_185 "Long_Name_185" "Value Number 185"]
            [V186 A186 "A186" Long_Name_186 "Long_Name_186" "Value Number 186"]
            [V187 A187 "A187" Long_Name_187 "Long_Name_187" "Value Number 187"]
            [V188 A188 "A188" Long_Name_188 "Long_Name_188" "Value Number 188"]
            [V189 A189 "A189" Long_Name_189 "Long_Name_189" "Value Number 189"]
            [V190 A190 "A190" Long_Name_190 "Long_Name_190" "Value Number 190"]
            [V191 A191 "A191" Long_Name_191 "Long_Name_191" "Value Number 191"]
            [V192 A192 "A192" Long_Name_192 "Long_Name_192" "Value Number 192"]
            [V193 A193 "A193" Long_Name_193 "Long_Name_193" "Value Number 193"]
            [V194 A194 "A194" Long_Name_194 "Long_Name_194" "Value Number 194"]
            [V195 A195 "A195" Long_Name_195 "Long_Name_195" "Value Number 195"]
            [V196 A196 "A196" Long_Name_196 "Long_Name_196" "Value Number 196"]
            [V197 A197 "A197" Long_Name_197 "Long_Name_197" "Value Number 197"]
            [V198 A198 "A198" Long_Name_198 "Long_Name_198" "Value Number 198"]
            [V199 A199 "A199" Long_Name_199 "Long_Name_199" "Value Number 199"]
            [V200 A200 "A200" Long_Name_200 "Long_Name_200" "Value Number 200"]
            [V201 A201 "A201" Long_Name_201 "Long_Name_201" "Value Number 201"]
            [V202 A202 "A202" Long_Name_202 "Long_Name_202" "Value Number 202"]
            [V203 A203 "A203" Long_Name_203 "Long_Name_203" "Value Number 203"]
            [V204 A204 "A204" Long_Name_204 "Long_Name_204" "Value Number 204"]
            [V205 A205 "A205" Long_Name_205 "Long_Name_205" "Value Number 205"]
            [V206 A206 "A206" Long_Name_206 "Long_Name_206" "Value Number 206"]
            [V207 A207 "A207" Long_Name_207 "Long_Name_207" "Value Number 207"]
            [V208 A208 "A208" Long_Name_208 "Long_Name_208" "Value Number 208"]
            [V209 A209 "A209" Long_Name_209 "Long_Name_209" "Value Number 209"]
            [V210 A210 "A210" Long_Name_210 "Long_Name_210" "Value Number 210"]
            [V211 A211 "A211" Long_Name_211 "Long_Name_211" "Value Number 211"]
            [V212 A212 "A212" Long_Name_212 "Long_Name_212" "Value Number 212"]
            [V213 A213 "A213" Long_Name_213 "Long_Name_213" "Value Number 213"]
            [V214 A214 "A214" Long_Name_214 "Long_Name_214" "Value Number 214"]
            [V215 A215 "A215" Long_Name_215 "Long_Name_215" "Value Number 215"]
            [V216 A216 "A216" Long_Name_216 "Long_Name_216" "Value Number 216"]
            [V217 A217 "A217" Long_Name_217 "Long_Name_217" "Value Number 217"]
            [V218 A218 "A218" Long_Name_218 "Long_Name_218" "Value Number 218"]
            [V219 A219 "A219" Long_Name_219 "Long_Name_219" "Value Number 219"]
            [V220 A220 "A220" Long_Name_220 "Long_Name_220" "Value Number 220"]
            [V221 A221 "A221" Long_Name_221 "Long_Name_221" "Value Number 221"]
            [V222 A222 "A222" Long_Name_222 "Long_Name_222" "Value Number 222"]
            [V223 A223 "A223" Long_Name_223 "Long_Name_223" "Value Number 223"]
            [V224 A224 "A224" Long_Name_224 "Long_Name_224" "Value Number 224"]
            [V225 A225 "A225" Long_Name_225 "Long_Name_225" "Value Number 225"]
            [V226 A226 "A226" Long_Name_226 "Long_Name_226" "Value Number 226"]
            [V227 A227 "A227" Long_Name_227 "Long_Name_227" "Value Number 227"]
            [V228 A228 "A228" Long_Name_228 "Long_Name_228" "Value Number 228"]
            [V229 A229 "A229" Long_Name_229 "Long_Name_229" "Value Number 229"]
            [V230 A230 "A230" Long_Name_230 "Long_Name_230" "Value Number 230"]
            [V231 A231 "A231" Long_Name_231 "Long_Name_231" "Value Number 231"]
            [V232 A232 "A232" Long_Name_232 "Long_Name_232" "Value Number 232"]
            [V233 A233 "A233" Long_Name_233 "Long_Name_233" "Value Number 233"]
            [V234 A234 "A234" Long_Name_234 "Long_Name_234" "Value Number 234"]
            [V235 A235 "A235" Long_Name_235 "Long_Name_235" "Value Number 235"]
            [V236 A236 "A236" Long_Name_236 "Long_Name_236" "Value Number 236"]
            [V237 A237 "A237" Long_Name_237 "Long_Name_237" "Value Number 237"]
            [V238 A238 "A238" Long_Name_238 "Long_Name_238" "Value Number 238"]
            [V239 A239 "A239" Long_Name_239 "Long_Name_239" "Value Number 239"]
            [V240 A240 "A240" Long_Name_240 "Long_Name_240" "Value Number 240"]
            [V241 A241 "A241" Long_Name_241 "Long_Name_241" "Value Number 241"]
            [V242 A242 "A242" Long_Name_242 "Long_Name_242" "Value Number 242"]
            [V243 A243 "A243" Long_Name_243 "Long_Name_243" "Value Number 243"]
            [V244 A244 "A244" Long_Name_244 "Long_Name_244" "Value Number 244"]
            [V245 A245 "A245" Long_Name_245 "Long_Name_245" "Value Number 245"]
            [V246 A246 "A246" Long_Name_246 "Long_Name_246" "Value Number 246"]
            [V247 A247 "A247" Long_Name_247 "Long_Name_247" "Value Number 247"]
            [V248 A248 "A248" Long_Name_248 "Long_Name_248" "Value Number 248"]
            [V249 A249 "A249" Long_Name_249 "Long_Name_249" "Value Number 249"]
            [V250 A250 "A250" Long_Name_250 "Long_Name_250" "Value Number 250"]
            [V251 A251 "A251" Long_Name_251 "Long_Name_251" "Value Number 251"]
            [V252 A252 "A252" Long_Name_252 "Long_Name_252" "Value Number 252"]
            [V253 A253 "A253" Long_Name_253 "Long_Name_253" "Value Number 253"]
            [V254 A254 "A254" Long_Name_254 "Long_Name_254" "Value Number 254"]
            [V255 A255 "A255" Long_Name_255 "Long_Name_255" "Value Number 255"]
            [V256 A256 "A256" Long_Name_256 "Long_Name_256" "Value Number 256"]
            [V257 A257 "A257" Long_Name_257 "Long_Name_257" "Value Number 257"]
            [V258 A258 "A258" Long_Name_258 "Long_Name_258" "Value Number 258"]
            [V259 A259 "A259" Long_Name_259 "Long_Name_259" "Value Number 259"]
            [V260 A260 "A260" Long_Name_260 "Long_Name_260" "Value Number 260"]
            [V261 A261 "A261" Long_Name_261 "Long_Name_261" "Value Number 261"]
            [V262 A262 "A262" Long_Name_262 "Long_Name_262" "Value Number 262"]
            [V263 A263 "A263" Long_Name_263 "Long_Name_263" "Value Number 263"]
            [V264 A264 "A264" Long_Name_264 "Long_Name_264" "Value Number 264"]
            [V265 A265 "A265" Long_Name_265 "Long_Name_265" "Value Number 265"]
            [V266 A266 "A266" Long_Name_266 "Long_Name_266" "Value Number 266"]
            [V267 A267 "A267" Long_Name_267 "Long_Name_267" "Value Number 267"]
            [V268 A268 "A268" Long_Name_268 "Long_Name_268" "Value Number 268"]
            [V269 A269 "A269" Long_Name_269 "Long_Name_269" "Value Number 269"]
            [V270 A270 "A270" Long_Name_270 "Long_Name_270" "Value Number 270"]
            [V271 A271 "A271" Long_Name_271 "Long_Name_271" "Value Number 271"]
            [V272 A272 "A272" Long_Name_272 "Long_Name_272" "Value Number 272"]
            [V273 A273 "A273" Long_Name_273 "Long_Name_273" "Value Number 273"]
            [V274 A274 "A274" Long_Name_274 "Long_Name_274" "Value Number 274"]
            [V275 A275 "A275" Long_Name_275 "Long_Name_275" "Value Number 275"]
            [V276 A276 "A276" Long_Name_276 "Long_Name_276" "Value Number 276"]
            [V277 A277 "A277" Long_Name_277 "Long_Name_277" "Value Number 277"]
            [V278 A278 "A278" Long_Name_278 "Long_Name_278" "Value Number 278"]
            [V279 A279 "A279" Long_Name_279 "Long_Name_279" "Value Number 279"]
            [V280 A280 "A280" Long_Name_280 "Long_Name_280" "Value Number 280"]
            [V281 A281 "A281" Long_Name_281 "Long_Name_281" "Value Number 281"]
            [V282 A282 "A282" Long_Name_282 "Long_Name_282" "Value Number 282"]
            [V283 A283 "A283" Long_Name_283 "Long_Name_283" "Value Number 283"]
            [V284 A284 "A284" Long_Name_284 "Long_Name_284" "Value Number 284"]
            [V285 A285 "A285" Long_Name_285 "Long_Name_285" "Value Number 285"]
            [V286 A286 "A286" Long_Name_286 "Long_Name_286" "Value Number 286"]
            [V287 A287 "A287" Long_Name_287 "Long_Name_287" "Value Number 287"]
            [V288 A288 "A288" Long_Name_288 "Long_Name_288" "Value Number 288"]
            [V289 A289 "A289" Long_Name_289 "Long_Name_289" "Value Number 289"]
            [V290 A290 "A290" Long_Name_290 "Long_Name_290" "Value Number 290"]
            [V291 A291 "A291" Long_Name_291 "Long_Name_291" "Value Number 291"]
            [V292 A292 "A292" Long_Name_292 "Long_Name_292" "Value Number 292"]
            [V293 A293 "A293" Long_Name_293 "Long_Name_293" "Value Number 293"]
            [V294 A294 "A294" Long_Name_294 "Long_Name_294" "Value Number 294"]
            [V295 A295 "A295" Long_Name_295 "Long_Name_295" "Value Number 295"]
            [V296 A296 "A296" Long_Name_296 "Long_Name_296" "Value Number 296"]
            [V297 A297 "A297" Long_Name_297 "Long_Name_297" "Value Number 297"]
            [V298 A298 "A298" Long_Name_298 "Long_Name_298" "Value Number 298"]
            [V299 A299 "A299" Long_Name_299 "Long_Name_299" "Value Number 299"]);
    v
}

mod yes_no {
    use unic_char_property::char_property;
    use unic_char_range::chars;
    char_property! {
        pub struct None(bool) { abbr => "n"; long => "None"; human => "no character"; data_table_path => "tables/none.rsv"; }
        pub fn is_none(char) -> bool;
    }
    char_property! {
        pub struct NoRange(bool) { abbr => "nr"; long => "No_Range"; human => "no range"; data_table_path => "tables/no_range.rsv"; }
        pub fn is_no_range(char) -> bool;
    }
    char_property! {
        pub struct All(bool) { abbr => "a"; long => "All"; human => "All"; data_table_path => "tables/all.rsv"; }
        pub fn is_all(char) -> bool;
    }
    char_property! {
        pub struct Few(bool) { abbr => "f"; long => "Few"; human => ""; data_table_path => "tables/few.rsv"; }
        pub fn is_few(char) -> bool;
    }
    char_property! {
        pub struct Ranges(bool) { abbr => ""; long => "Ranges"; human => "some ranges"; data_table_path => "tables/ranges.rsv"; }
        pub fn is_ranges(char) -> bool;
    }
}

struct Bin {
    ty: &'static str,
    want: [&'static str; 3],
    names: [&'static str; 3],
    of: [fn(char) -> bool; 6],
    member: fn(char) -> bool,
    parse: fn(&str) -> Option<bool>,
    told: fn(char) -> [String; 5],
    default: bool,
}
macro_rules! bin {
    ($t:ident, $is:ident, $want:expr, $member:expr) => {{
        use yes_no::{$is, $t};
        Bin {
            ty: stringify!($t),
            want: $want,
            names: [$t::prop_abbr_name(), $t::prop_long_name(), $t::prop_human_name()],
            of: [
                $is,
                |c| $t::of(c).as_bool(),
                |c| BinaryCharProperty::as_bool(&<$t as TotalCharProperty>::of(c)),
                |c| <$t as PartialCharProperty>::of(c).map_or(false, |x| x.as_bool()),
                |c| bool::from($t::of(c)),
                |c| $t::of(c) != $t::default(),
            ],
            member: $member,
            parse: |s| s.parse::<$t>().ok().map(|x| x.as_bool()),
            told: |c| {
                let x = $t::of(c);
                [x.abbr_name().to_string(), x.long_name().into(), BinaryCharProperty::human_name(&x).into(), x.to_string(), format!("{x:?}")]
            },
            default: $t::default().as_bool(),
        }
    }};
}

pub fn families(c: &mut Check) {
    let v: &'static [Declared] = Box::leak(all().into_boxed_slice());
    let len = by(5, 7);
    const A: &[char] = &['A', 'a', 'B', 'b', '_', '1', 'X', 'y', 'k', 's', '\u{e9}', '\u{c9}', '\u{212a}', '\u{17f}'];
    c.family("declared", "8 property types declared by the harness, of 1 to 300 values, names that are parts of others or cross or have marks and other letters or up to 258 of them: names, list, modules, every spelling", v.len() as u64, move |i, w| {
        let d = &v[i as usize];
        w.eq(&d.names, &d.want, || d.ty.into(), "property names");
        w.eq(&d.told.len(), &d.values.len(), || d.ty.into(), "number of values");
        for (j, x) in d.values.iter().enumerate() {
            let k = || format!("{} {}", d.ty, x[1]);
            w.state();
            w.eq(&d.paths[j], &[j; 3], k, "position of the value by its three paths");
            let Some(t) = d.told.get(j) else { break };
            w.eq(&[&t[0][..], &t[1], &t[2], &t[3], &t[4]], &[x[0], x[1], x[2], x[2], d.debug[j]], k, "names, display and debug text");
            for s in &x[..2] {
                for y in case_variants(s, by(10, 14)).iter().chain(&near(s)) {
                    w.steps(y.len());
                    w.eq(&(d.parse)(y), &accept(d, y), || format!("{} parse {}", d.ty, esc(y)), "value");
                }
            }
            w.eq(&(d.parse)(x[2]), &accept(d, x[2]), || format!("{} parse {}", d.ty, esc(x[2])), "value");
        }
    });
    c.family("declared words", "every word over 14 characters to length 5 (thorough 7), parsed as each of these types but the largest", words_upto(A.len() as u64, len), move |i, w| {
        let mut word = vec![];
        word_at(A.len() as u64, i, &mut word);
        let s: String = word.iter().map(|b| A[*b as usize]).collect();
        w.state();
        for d in &v[..v.len() - 1] {
            w.steps(1);
            w.eq(&(d.parse)(&s), &accept(d, &s), || format!("{} parse {}", d.ty, esc(&s)), "value");
        }
    });
    let bins: &'static [Bin] = Box::leak(Box::new([
        bin!(None, is_none, ["n", "None", "no character"], |_| false),
        bin!(NoRange, is_no_range, ["nr", "No_Range", "no range"], |_| false),
        bin!(All, is_all, ["a", "All", "All"], |_| true),
        bin!(Few, is_few, ["f", "Few", ""], |c| ['A', 'C', '\u{d7ff}', '\u{e000}', '\u{10ffff}'].contains(&c)),
        bin!(Ranges, is_ranges, ["", "Ranges", "some ranges"], |c| c <= 'A' || 'C' <= c && c <= '\u{d7fe}' || c == '\u{e001}' || c == '\u{e002}'),
    ]));
    const B: &[char] = &['y', 'Y', 'n', 'N', 'e', 'E', 's', 'S', 'o', 'O', 't', 'T', 'r', 'R', 'u', 'U', 'f', 'F', 'a', 'A', 'l', 'L', '0', '1', ' ', '\u{17f}'];
    c.family("declared binary", "5 binary types declared by the harness over tables of every shape, at every character", N_SCALARS, move |i, w| {
        let c = scalar_at(i);
        w.state();
        for b in bins {
            let k = || format!("{} of U+{:04X}", b.ty, c as u32);
            let yes = (b.member)(c);
            w.steps(b.of.len());
            w.eq(&b.of.map(|f| f(c)), &[yes; 6], k, "value by six ways");
            let t = (b.told)(c);
            let [a, l] = if yes { ["Y", "Yes"] } else { ["N", "No"] };
            w.eq(&[&t[0][..], &t[1], &t[2], &t[3], &t[4]], &[a, l, l, l, &format!("{}({yes})", b.ty)], k, "names, display and debug text");
            if i == 0 {
                w.eq(&b.names, &b.want, k, "property names");
                w.eq(&b.default, &false, k, "default");
            }
        }
    });
    let len = by(4, 5);
    c.family("declared binary words", "every word over 26 characters to length 4 (thorough 5), parsed as each of these types", words_upto(B.len() as u64, len), move |i, w| {
        let mut word = vec![];
        word_at(B.len() as u64, i, &mut word);
        let s: String = word.iter().map(|b| B[*b as usize]).collect();
        let want = match s.to_ascii_lowercase().as_str() {
            "y" | "yes" | "t" | "true" => Some(true),
            "n" | "no" | "f" | "false" => Some(false),
            _ => Option::None,
        };
        w.state();
        for b in bins {
            w.steps(1);
            w.eq(&(b.parse)(&s), &want, || format!("{} parse {}", b.ty, esc(&s)), "value");
        }
    });
}

/// The value one of whose names is this text, or else this text in another case.
fn accept(d: &Declared, s: &str) -> Option<usize> {
    let has = |f: &dyn Fn(&str) -> bool| d.values.iter().position(|x| f(x[0]) || f(x[1]));
    has(&|n| n == s).or_else(|| has(&|n| n.eq_ignore_ascii_case(s)))
}
