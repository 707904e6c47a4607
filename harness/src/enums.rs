// Written by dev/gen_enums.py.  Enum variant <-> UCD 15.1 short alias.
use seshat::unicode::props::*;

pub const GC: &[(Gc, &str)] = &[
    (Gc::Cc, "Cc"),
    (Gc::Cf, "Cf"),
    (Gc::Cn, "Cn"),
    (Gc::Co, "Co"),
    (Gc::Cs, "Cs"),
    (Gc::Ll, "Ll"),
    (Gc::Lm, "Lm"),
    (Gc::Lo, "Lo"),
    (Gc::Lt, "Lt"),
    (Gc::Lu, "Lu"),
    (Gc::Mc, "Mc"),
    (Gc::Me, "Me"),
    (Gc::Mn, "Mn"),
    (Gc::Nd, "Nd"),
    (Gc::Nl, "Nl"),
    (Gc::No, "No"),
    (Gc::Pc, "Pc"),
    (Gc::Pd, "Pd"),
    (Gc::Pe, "Pe"),
    (Gc::Pf, "Pf"),
    (Gc::Pi, "Pi"),
    (Gc::Po, "Po"),
    (Gc::Ps, "Ps"),
    (Gc::Sc, "Sc"),
    (Gc::Sk, "Sk"),
    (Gc::Sm, "Sm"),
    (Gc::So, "So"),
    (Gc::Zl, "Zl"),
    (Gc::Zp, "Zp"),
    (Gc::Zs, "Zs"),
];
#[allow(unreachable_patterns)]
pub fn gc(v: Gc) -> &'static str {
    match v {
        Gc::Cc => "Cc",
        Gc::Cf => "Cf",
        Gc::Cn => "Cn",
        Gc::Co => "Co",
        Gc::Cs => "Cs",
        Gc::Ll => "Ll",
        Gc::Lm => "Lm",
        Gc::Lo => "Lo",
        Gc::Lt => "Lt",
        Gc::Lu => "Lu",
        Gc::Mc => "Mc",
        Gc::Me => "Me",
        Gc::Mn => "Mn",
        Gc::Nd => "Nd",
        Gc::Nl => "Nl",
        Gc::No => "No",
        Gc::Pc => "Pc",
        Gc::Pd => "Pd",
        Gc::Pe => "Pe",
        Gc::Pf => "Pf",
        Gc::Pi => "Pi",
        Gc::Po => "Po",
        Gc::Ps => "Ps",
        Gc::Sc => "Sc",
        Gc::Sk => "Sk",
        Gc::Sm => "Sm",
        Gc::So => "So",
        Gc::Zl => "Zl",
        Gc::Zp => "Zp",
        Gc::Zs => "Zs",
        _ => "?",
    }
}

pub const HST: &[(Hst, &str)] = &[
    (Hst::L, "L"),
    (Hst::LV, "LV"),
    (Hst::LVT, "LVT"),
    (Hst::NA, "NA"),
    (Hst::T, "T"),
    (Hst::V, "V"),
];
#[allow(unreachable_patterns)]
pub fn hst(v: Hst) -> &'static str {
    match v {
        Hst::L => "L",
        Hst::LV => "LV",
        Hst::LVT => "LVT",
        Hst::NA => "NA",
        Hst::T => "T",
        Hst::V => "V",
        _ => "?",
    }
}

pub const GCB: &[(Gcb, &str)] = &[
    (Gcb::CN, "CN"),
    (Gcb::CR, "CR"),
    (Gcb::EB, "EB"),
    (Gcb::EBG, "EBG"),
    (Gcb::EM, "EM"),
    (Gcb::EX, "EX"),
    (Gcb::GAZ, "GAZ"),
    (Gcb::L, "L"),
    (Gcb::LF, "LF"),
    (Gcb::LV, "LV"),
    (Gcb::LVT, "LVT"),
    (Gcb::PP, "PP"),
    (Gcb::RI, "RI"),
    (Gcb::SM, "SM"),
    (Gcb::T, "T"),
    (Gcb::V, "V"),
    (Gcb::XX, "XX"),
    (Gcb::ZWJ, "ZWJ"),
];
#[allow(unreachable_patterns)]
pub fn gcb(v: Gcb) -> &'static str {
    match v {
        Gcb::CN => "CN",
        Gcb::CR => "CR",
        Gcb::EB => "EB",
        Gcb::EBG => "EBG",
        Gcb::EM => "EM",
        Gcb::EX => "EX",
        Gcb::GAZ => "GAZ",
        Gcb::L => "L",
        Gcb::LF => "LF",
        Gcb::LV => "LV",
        Gcb::LVT => "LVT",
        Gcb::PP => "PP",
        Gcb::RI => "RI",
        Gcb::SM => "SM",
        Gcb::T => "T",
        Gcb::V => "V",
        Gcb::XX => "XX",
        Gcb::ZWJ => "ZWJ",
        _ => "?",
    }
}

pub const BC: &[(Bc, &str)] = &[
    (Bc::AL, "AL"),
    (Bc::AN, "AN"),
    (Bc::B, "B"),
    (Bc::BN, "BN"),
    (Bc::CS, "CS"),
    (Bc::EN, "EN"),
    (Bc::ES, "ES"),
    (Bc::ET, "ET"),
    (Bc::FSI, "FSI"),
    (Bc::L, "L"),
    (Bc::LRE, "LRE"),
    (Bc::LRI, "LRI"),
    (Bc::LRO, "LRO"),
    (Bc::NSM, "NSM"),
    (Bc::ON, "ON"),
    (Bc::PDF, "PDF"),
    (Bc::PDI, "PDI"),
    (Bc::R, "R"),
    (Bc::RLE, "RLE"),
    (Bc::RLI, "RLI"),
    (Bc::RLO, "RLO"),
    (Bc::S, "S"),
    (Bc::WS, "WS"),
];
#[allow(unreachable_patterns)]
pub fn bc(v: Bc) -> &'static str {
    match v {
        Bc::AL => "AL",
        Bc::AN => "AN",
        Bc::B => "B",
        Bc::BN => "BN",
        Bc::CS => "CS",
        Bc::EN => "EN",
        Bc::ES => "ES",
        Bc::ET => "ET",
        Bc::FSI => "FSI",
        Bc::L => "L",
        Bc::LRE => "LRE",
        Bc::LRI => "LRI",
        Bc::LRO => "LRO",
        Bc::NSM => "NSM",
        Bc::ON => "ON",
        Bc::PDF => "PDF",
        Bc::PDI => "PDI",
        Bc::R => "R",
        Bc::RLE => "RLE",
        Bc::RLI => "RLI",
        Bc::RLO => "RLO",
        Bc::S => "S",
        Bc::WS => "WS",
        _ => "?",
    }
}

pub const CCC: &[(Ccc, &str)] = &[
    (Ccc::NR, "NR"),
    (Ccc::OV, "OV"),
    (Ccc::HANR, "HANR"),
    (Ccc::NK, "NK"),
    (Ccc::KV, "KV"),
    (Ccc::VR, "VR"),
    (Ccc::CCC10, "CCC10"),
    (Ccc::CCC11, "CCC11"),
    (Ccc::CCC12, "CCC12"),
    (Ccc::CCC13, "CCC13"),
    (Ccc::CCC14, "CCC14"),
    (Ccc::CCC15, "CCC15"),
    (Ccc::CCC16, "CCC16"),
    (Ccc::CCC17, "CCC17"),
    (Ccc::CCC18, "CCC18"),
    (Ccc::CCC19, "CCC19"),
    (Ccc::CCC20, "CCC20"),
    (Ccc::CCC21, "CCC21"),
    (Ccc::CCC22, "CCC22"),
    (Ccc::CCC23, "CCC23"),
    (Ccc::CCC24, "CCC24"),
    (Ccc::CCC25, "CCC25"),
    (Ccc::CCC26, "CCC26"),
    (Ccc::CCC27, "CCC27"),
    (Ccc::CCC28, "CCC28"),
    (Ccc::CCC29, "CCC29"),
    (Ccc::CCC30, "CCC30"),
    (Ccc::CCC31, "CCC31"),
    (Ccc::CCC32, "CCC32"),
    (Ccc::CCC33, "CCC33"),
    (Ccc::CCC34, "CCC34"),
    (Ccc::CCC35, "CCC35"),
    (Ccc::CCC36, "CCC36"),
    (Ccc::CCC84, "CCC84"),
    (Ccc::CCC91, "CCC91"),
    (Ccc::CCC103, "CCC103"),
    (Ccc::CCC107, "CCC107"),
    (Ccc::CCC118, "CCC118"),
    (Ccc::CCC122, "CCC122"),
    (Ccc::CCC129, "CCC129"),
    (Ccc::CCC130, "CCC130"),
    (Ccc::CCC132, "CCC132"),
    (Ccc::CCC133, "CCC133"),
    (Ccc::ATBL, "ATBL"),
    (Ccc::ATB, "ATB"),
    (Ccc::ATA, "ATA"),
    (Ccc::ATAR, "ATAR"),
    (Ccc::BL, "BL"),
    (Ccc::B, "B"),
    (Ccc::BR, "BR"),
    (Ccc::L, "L"),
    (Ccc::R, "R"),
    (Ccc::AL, "AL"),
    (Ccc::A, "A"),
    (Ccc::AR, "AR"),
    (Ccc::DB, "DB"),
    (Ccc::DA, "DA"),
    (Ccc::IS, "IS"),
];
#[allow(unreachable_patterns)]
pub fn ccc(v: Ccc) -> &'static str {
    match v {
        Ccc::NR => "NR",
        Ccc::OV => "OV",
        Ccc::HANR => "HANR",
        Ccc::NK => "NK",
        Ccc::KV => "KV",
        Ccc::VR => "VR",
        Ccc::CCC10 => "CCC10",
        Ccc::CCC11 => "CCC11",
        Ccc::CCC12 => "CCC12",
        Ccc::CCC13 => "CCC13",
        Ccc::CCC14 => "CCC14",
        Ccc::CCC15 => "CCC15",
        Ccc::CCC16 => "CCC16",
        Ccc::CCC17 => "CCC17",
        Ccc::CCC18 => "CCC18",
        Ccc::CCC19 => "CCC19",
        Ccc::CCC20 => "CCC20",
        Ccc::CCC21 => "CCC21",
        Ccc::CCC22 => "CCC22",
        Ccc::CCC23 => "CCC23",
        Ccc::CCC24 => "CCC24",
        Ccc::CCC25 => "CCC25",
        Ccc::CCC26 => "CCC26",
        Ccc::CCC27 => "CCC27",
        Ccc::CCC28 => "CCC28",
        Ccc::CCC29 => "CCC29",
        Ccc::CCC30 => "CCC30",
        Ccc::CCC31 => "CCC31",
        Ccc::CCC32 => "CCC32",
        Ccc::CCC33 => "CCC33",
        Ccc::CCC34 => "CCC34",
        Ccc::CCC35 => "CCC35",
        Ccc::CCC36 => "CCC36",
        Ccc::CCC84 => "CCC84",
        Ccc::CCC91 => "CCC91",
        Ccc::CCC103 => "CCC103",
        Ccc::CCC107 => "CCC107",
        Ccc::CCC118 => "CCC118",
        Ccc::CCC122 => "CCC122",
        Ccc::CCC129 => "CCC129",
        Ccc::CCC130 => "CCC130",
        Ccc::CCC132 => "CCC132",
        Ccc::CCC133 => "CCC133",
        Ccc::ATBL => "ATBL",
        Ccc::ATB => "ATB",
        Ccc::ATA => "ATA",
        Ccc::ATAR => "ATAR",
        Ccc::BL => "BL",
        Ccc::B => "B",
        Ccc::BR => "BR",
        Ccc::L => "L",
        Ccc::R => "R",
        Ccc::AL => "AL",
        Ccc::A => "A",
        Ccc::AR => "AR",
        Ccc::DB => "DB",
        Ccc::DA => "DA",
        Ccc::IS => "IS",
        _ => "?",
    }
}

pub const DT: &[(Dt, &str)] = &[
    (Dt::Can, "Can"),
    (Dt::Com, "Com"),
    (Dt::Enc, "Enc"),
    (Dt::Fin, "Fin"),
    (Dt::Font, "Font"),
    (Dt::Fra, "Fra"),
    (Dt::Init, "Init"),
    (Dt::Iso, "Iso"),
    (Dt::Med, "Med"),
    (Dt::Nar, "Nar"),
    (Dt::Nb, "Nb"),
    (Dt::None, "None"),
    (Dt::Sml, "Sml"),
    (Dt::Sqr, "Sqr"),
    (Dt::Sub, "Sub"),
    (Dt::Sup, "Sup"),
    (Dt::Vert, "Vert"),
    (Dt::Wide, "Wide"),
];
#[allow(unreachable_patterns)]
pub fn dt(v: Dt) -> &'static str {
    match v {
        Dt::Can => "Can",
        Dt::Com => "Com",
        Dt::Enc => "Enc",
        Dt::Fin => "Fin",
        Dt::Font => "Font",
        Dt::Fra => "Fra",
        Dt::Init => "Init",
        Dt::Iso => "Iso",
        Dt::Med => "Med",
        Dt::Nar => "Nar",
        Dt::Nb => "Nb",
        Dt::None => "None",
        Dt::Sml => "Sml",
        Dt::Sqr => "Sqr",
        Dt::Sub => "Sub",
        Dt::Sup => "Sup",
        Dt::Vert => "Vert",
        Dt::Wide => "Wide",
        _ => "?",
    }
}

pub const BLK: &[(Blk, &str)] = &[
    (Blk::Adlam, "Adlam"),
    (Blk::AegeanNumbers, "Aegean_Numbers"),
    (Blk::Ahom, "Ahom"),
    (Blk::Alchemical, "Alchemical"),
    (Blk::AlphabeticPf, "Alphabetic_PF"),
    (Blk::AnatolianHieroglyphs, "Anatolian_Hieroglyphs"),
    (Blk::AncientGreekMusic, "Ancient_Greek_Music"),
    (Blk::AncientGreekNumbers, "Ancient_Greek_Numbers"),
    (Blk::AncientSymbols, "Ancient_Symbols"),
    (Blk::Arabic, "Arabic"),
    (Blk::ArabicExtA, "Arabic_Ext_A"),
    (Blk::ArabicExtB, "Arabic_Ext_B"),
    (Blk::ArabicExtC, "Arabic_Ext_C"),
    (Blk::ArabicMath, "Arabic_Math"),
    (Blk::ArabicPfA, "Arabic_PF_A"),
    (Blk::ArabicPfB, "Arabic_PF_B"),
    (Blk::ArabicSup, "Arabic_Sup"),
    (Blk::Armenian, "Armenian"),
    (Blk::Arrows, "Arrows"),
    (Blk::Ascii, "ASCII"),
    (Blk::Avestan, "Avestan"),
    (Blk::Balinese, "Balinese"),
    (Blk::Bamum, "Bamum"),
    (Blk::BamumSup, "Bamum_Sup"),
    (Blk::BassaVah, "Bassa_Vah"),
    (Blk::Batak, "Batak"),
    (Blk::Bengali, "Bengali"),
    (Blk::Bhaiksuki, "Bhaiksuki"),
    (Blk::BlockElements, "Block_Elements"),
    (Blk::Bopomofo, "Bopomofo"),
    (Blk::BopomofoExt, "Bopomofo_Ext"),
    (Blk::BoxDrawing, "Box_Drawing"),
    (Blk::Brahmi, "Brahmi"),
    (Blk::Braille, "Braille"),
    (Blk::Buginese, "Buginese"),
    (Blk::Buhid, "Buhid"),
    (Blk::ByzantineMusic, "Byzantine_Music"),
    (Blk::Carian, "Carian"),
    (Blk::CaucasianAlbanian, "Caucasian_Albanian"),
    (Blk::Chakma, "Chakma"),
    (Blk::Cham, "Cham"),
    (Blk::Cherokee, "Cherokee"),
    (Blk::CherokeeSup, "Cherokee_Sup"),
    (Blk::ChessSymbols, "Chess_Symbols"),
    (Blk::Chorasmian, "Chorasmian"),
    (Blk::Cjk, "CJK"),
    (Blk::CjkCompat, "CJK_Compat"),
    (Blk::CjkCompatForms, "CJK_Compat_Forms"),
    (Blk::CjkCompatIdeographs, "CJK_Compat_Ideographs"),
    (Blk::CjkCompatIdeographsSup, "CJK_Compat_Ideographs_Sup"),
    (Blk::CjkExtA, "CJK_Ext_A"),
    (Blk::CjkExtB, "CJK_Ext_B"),
    (Blk::CjkExtC, "CJK_Ext_C"),
    (Blk::CjkExtD, "CJK_Ext_D"),
    (Blk::CjkExtE, "CJK_Ext_E"),
    (Blk::CjkExtF, "CJK_Ext_F"),
    (Blk::CjkExtG, "CJK_Ext_G"),
    (Blk::CjkExtH, "CJK_Ext_H"),
    (Blk::CjkExtI, "CJK_Ext_I"),
    (Blk::CjkRadicalsSup, "CJK_Radicals_Sup"),
    (Blk::CjkStrokes, "CJK_Strokes"),
    (Blk::CjkSymbols, "CJK_Symbols"),
    (Blk::CompatJamo, "Compat_Jamo"),
    (Blk::ControlPictures, "Control_Pictures"),
    (Blk::Coptic, "Coptic"),
    (Blk::CopticEpactNumbers, "Coptic_Epact_Numbers"),
    (Blk::CountingRod, "Counting_Rod"),
    (Blk::Cuneiform, "Cuneiform"),
    (Blk::CuneiformNumbers, "Cuneiform_Numbers"),
    (Blk::CurrencySymbols, "Currency_Symbols"),
    (Blk::CypriotSyllabary, "Cypriot_Syllabary"),
    (Blk::CyproMinoan, "Cypro_Minoan"),
    (Blk::Cyrillic, "Cyrillic"),
    (Blk::CyrillicExtA, "Cyrillic_Ext_A"),
    (Blk::CyrillicExtB, "Cyrillic_Ext_B"),
    (Blk::CyrillicExtC, "Cyrillic_Ext_C"),
    (Blk::CyrillicExtD, "Cyrillic_Ext_D"),
    (Blk::CyrillicSup, "Cyrillic_Sup"),
    (Blk::Deseret, "Deseret"),
    (Blk::Devanagari, "Devanagari"),
    (Blk::DevanagariExt, "Devanagari_Ext"),
    (Blk::DevanagariExtA, "Devanagari_Ext_A"),
    (Blk::Diacriticals, "Diacriticals"),
    (Blk::DiacriticalsExt, "Diacriticals_Ext"),
    (Blk::DiacriticalsForSymbols, "Diacriticals_For_Symbols"),
    (Blk::DiacriticalsSup, "Diacriticals_Sup"),
    (Blk::Dingbats, "Dingbats"),
    (Blk::DivesAkuru, "Dives_Akuru"),
    (Blk::Dogra, "Dogra"),
    (Blk::Domino, "Domino"),
    (Blk::Duployan, "Duployan"),
    (Blk::EarlyDynasticCuneiform, "Early_Dynastic_Cuneiform"),
    (Blk::EgyptianHieroglyphFormatControls, "Egyptian_Hieroglyph_Format_Controls"),
    (Blk::EgyptianHieroglyphs, "Egyptian_Hieroglyphs"),
    (Blk::Elbasan, "Elbasan"),
    (Blk::Elymaic, "Elymaic"),
    (Blk::Emoticons, "Emoticons"),
    (Blk::EnclosedAlphanum, "Enclosed_Alphanum"),
    (Blk::EnclosedAlphanumSup, "Enclosed_Alphanum_Sup"),
    (Blk::EnclosedCjk, "Enclosed_CJK"),
    (Blk::EnclosedIdeographicSup, "Enclosed_Ideographic_Sup"),
    (Blk::Ethiopic, "Ethiopic"),
    (Blk::EthiopicExt, "Ethiopic_Ext"),
    (Blk::EthiopicExtA, "Ethiopic_Ext_A"),
    (Blk::EthiopicExtB, "Ethiopic_Ext_B"),
    (Blk::EthiopicSup, "Ethiopic_Sup"),
    (Blk::GeometricShapes, "Geometric_Shapes"),
    (Blk::GeometricShapesExt, "Geometric_Shapes_Ext"),
    (Blk::Georgian, "Georgian"),
    (Blk::GeorgianExt, "Georgian_Ext"),
    (Blk::GeorgianSup, "Georgian_Sup"),
    (Blk::Glagolitic, "Glagolitic"),
    (Blk::GlagoliticSup, "Glagolitic_Sup"),
    (Blk::Gothic, "Gothic"),
    (Blk::Grantha, "Grantha"),
    (Blk::Greek, "Greek"),
    (Blk::GreekExt, "Greek_Ext"),
    (Blk::Gujarati, "Gujarati"),
    (Blk::GunjalaGondi, "Gunjala_Gondi"),
    (Blk::Gurmukhi, "Gurmukhi"),
    (Blk::HalfAndFullForms, "Half_And_Full_Forms"),
    (Blk::HalfMarks, "Half_Marks"),
    (Blk::Hangul, "Hangul"),
    (Blk::HanifiRohingya, "Hanifi_Rohingya"),
    (Blk::Hanunoo, "Hanunoo"),
    (Blk::Hatran, "Hatran"),
    (Blk::Hebrew, "Hebrew"),
    (Blk::HighPuSurrogates, "High_PU_Surrogates"),
    (Blk::HighSurrogates, "High_Surrogates"),
    (Blk::Hiragana, "Hiragana"),
    (Blk::Idc, "IDC"),
    (Blk::IdeographicSymbols, "Ideographic_Symbols"),
    (Blk::ImperialAramaic, "Imperial_Aramaic"),
    (Blk::IndicNumberForms, "Indic_Number_Forms"),
    (Blk::IndicSiyaqNumbers, "Indic_Siyaq_Numbers"),
    (Blk::InscriptionalPahlavi, "Inscriptional_Pahlavi"),
    (Blk::InscriptionalParthian, "Inscriptional_Parthian"),
    (Blk::IpaExt, "IPA_Ext"),
    (Blk::Jamo, "Jamo"),
    (Blk::JamoExtA, "Jamo_Ext_A"),
    (Blk::JamoExtB, "Jamo_Ext_B"),
    (Blk::Javanese, "Javanese"),
    (Blk::Kaithi, "Kaithi"),
    (Blk::KaktovikNumerals, "Kaktovik_Numerals"),
    (Blk::KanaExtA, "Kana_Ext_A"),
    (Blk::KanaExtB, "Kana_Ext_B"),
    (Blk::KanaSup, "Kana_Sup"),
    (Blk::Kanbun, "Kanbun"),
    (Blk::Kangxi, "Kangxi"),
    (Blk::Kannada, "Kannada"),
    (Blk::Katakana, "Katakana"),
    (Blk::KatakanaExt, "Katakana_Ext"),
    (Blk::Kawi, "Kawi"),
    (Blk::KayahLi, "Kayah_Li"),
    (Blk::Kharoshthi, "Kharoshthi"),
    (Blk::KhitanSmallScript, "Khitan_Small_Script"),
    (Blk::Khmer, "Khmer"),
    (Blk::KhmerSymbols, "Khmer_Symbols"),
    (Blk::Khojki, "Khojki"),
    (Blk::Khudawadi, "Khudawadi"),
    (Blk::Lao, "Lao"),
    (Blk::Latin1Sup, "Latin_1_Sup"),
    (Blk::LatinExtA, "Latin_Ext_A"),
    (Blk::LatinExtAdditional, "Latin_Ext_Additional"),
    (Blk::LatinExtB, "Latin_Ext_B"),
    (Blk::LatinExtC, "Latin_Ext_C"),
    (Blk::LatinExtD, "Latin_Ext_D"),
    (Blk::LatinExtE, "Latin_Ext_E"),
    (Blk::LatinExtF, "Latin_Ext_F"),
    (Blk::LatinExtG, "Latin_Ext_G"),
    (Blk::Lepcha, "Lepcha"),
    (Blk::LetterlikeSymbols, "Letterlike_Symbols"),
    (Blk::Limbu, "Limbu"),
    (Blk::LinearA, "Linear_A"),
    (Blk::LinearBIdeograms, "Linear_B_Ideograms"),
    (Blk::LinearBSyllabary, "Linear_B_Syllabary"),
    (Blk::Lisu, "Lisu"),
    (Blk::LisuSup, "Lisu_Sup"),
    (Blk::LowSurrogates, "Low_Surrogates"),
    (Blk::Lycian, "Lycian"),
    (Blk::Lydian, "Lydian"),
    (Blk::Mahajani, "Mahajani"),
    (Blk::Mahjong, "Mahjong"),
    (Blk::Makasar, "Makasar"),
    (Blk::Malayalam, "Malayalam"),
    (Blk::Mandaic, "Mandaic"),
    (Blk::Manichaean, "Manichaean"),
    (Blk::Marchen, "Marchen"),
    (Blk::MasaramGondi, "Masaram_Gondi"),
    (Blk::MathAlphanum, "Math_Alphanum"),
    (Blk::MathOperators, "Math_Operators"),
    (Blk::MayanNumerals, "Mayan_Numerals"),
    (Blk::Medefaidrin, "Medefaidrin"),
    (Blk::MeeteiMayek, "Meetei_Mayek"),
    (Blk::MeeteiMayekExt, "Meetei_Mayek_Ext"),
    (Blk::MendeKikakui, "Mende_Kikakui"),
    (Blk::MeroiticCursive, "Meroitic_Cursive"),
    (Blk::MeroiticHieroglyphs, "Meroitic_Hieroglyphs"),
    (Blk::Miao, "Miao"),
    (Blk::MiscArrows, "Misc_Arrows"),
    (Blk::MiscMathSymbolsA, "Misc_Math_Symbols_A"),
    (Blk::MiscMathSymbolsB, "Misc_Math_Symbols_B"),
    (Blk::MiscPictographs, "Misc_Pictographs"),
    (Blk::MiscSymbols, "Misc_Symbols"),
    (Blk::MiscTechnical, "Misc_Technical"),
    (Blk::Modi, "Modi"),
    (Blk::ModifierLetters, "Modifier_Letters"),
    (Blk::ModifierToneLetters, "Modifier_Tone_Letters"),
    (Blk::Mongolian, "Mongolian"),
    (Blk::MongolianSup, "Mongolian_Sup"),
    (Blk::Mro, "Mro"),
    (Blk::Multani, "Multani"),
    (Blk::Music, "Music"),
    (Blk::Myanmar, "Myanmar"),
    (Blk::MyanmarExtA, "Myanmar_Ext_A"),
    (Blk::MyanmarExtB, "Myanmar_Ext_B"),
    (Blk::Nabataean, "Nabataean"),
    (Blk::NagMundari, "Nag_Mundari"),
    (Blk::Nandinagari, "Nandinagari"),
    (Blk::Nb, "NB"),
    (Blk::NewTaiLue, "New_Tai_Lue"),
    (Blk::Newa, "Newa"),
    (Blk::Nko, "NKo"),
    (Blk::NumberForms, "Number_Forms"),
    (Blk::Nushu, "Nushu"),
    (Blk::NyiakengPuachueHmong, "Nyiakeng_Puachue_Hmong"),
    (Blk::Ocr, "OCR"),
    (Blk::Ogham, "Ogham"),
    (Blk::OlChiki, "Ol_Chiki"),
    (Blk::OldHungarian, "Old_Hungarian"),
    (Blk::OldItalic, "Old_Italic"),
    (Blk::OldNorthArabian, "Old_North_Arabian"),
    (Blk::OldPermic, "Old_Permic"),
    (Blk::OldPersian, "Old_Persian"),
    (Blk::OldSogdian, "Old_Sogdian"),
    (Blk::OldSouthArabian, "Old_South_Arabian"),
    (Blk::OldTurkic, "Old_Turkic"),
    (Blk::OldUyghur, "Old_Uyghur"),
    (Blk::Oriya, "Oriya"),
    (Blk::OrnamentalDingbats, "Ornamental_Dingbats"),
    (Blk::Osage, "Osage"),
    (Blk::Osmanya, "Osmanya"),
    (Blk::OttomanSiyaqNumbers, "Ottoman_Siyaq_Numbers"),
    (Blk::PahawhHmong, "Pahawh_Hmong"),
    (Blk::Palmyrene, "Palmyrene"),
    (Blk::PauCinHau, "Pau_Cin_Hau"),
    (Blk::PhagsPa, "Phags_Pa"),
    (Blk::Phaistos, "Phaistos"),
    (Blk::Phoenician, "Phoenician"),
    (Blk::PhoneticExt, "Phonetic_Ext"),
    (Blk::PhoneticExtSup, "Phonetic_Ext_Sup"),
    (Blk::PlayingCards, "Playing_Cards"),
    (Blk::PsalterPahlavi, "Psalter_Pahlavi"),
    (Blk::Pua, "PUA"),
    (Blk::Punctuation, "Punctuation"),
    (Blk::Rejang, "Rejang"),
    (Blk::Rumi, "Rumi"),
    (Blk::Runic, "Runic"),
    (Blk::Samaritan, "Samaritan"),
    (Blk::Saurashtra, "Saurashtra"),
    (Blk::Sharada, "Sharada"),
    (Blk::Shavian, "Shavian"),
    (Blk::ShorthandFormatControls, "Shorthand_Format_Controls"),
    (Blk::Siddham, "Siddham"),
    (Blk::Sinhala, "Sinhala"),
    (Blk::SinhalaArchaicNumbers, "Sinhala_Archaic_Numbers"),
    (Blk::SmallForms, "Small_Forms"),
    (Blk::SmallKanaExt, "Small_Kana_Ext"),
    (Blk::Sogdian, "Sogdian"),
    (Blk::SoraSompeng, "Sora_Sompeng"),
    (Blk::Soyombo, "Soyombo"),
    (Blk::Specials, "Specials"),
    (Blk::Sundanese, "Sundanese"),
    (Blk::SundaneseSup, "Sundanese_Sup"),
    (Blk::SupArrowsA, "Sup_Arrows_A"),
    (Blk::SupArrowsB, "Sup_Arrows_B"),
    (Blk::SupArrowsC, "Sup_Arrows_C"),
    (Blk::SupMathOperators, "Sup_Math_Operators"),
    (Blk::SupPuaA, "Sup_PUA_A"),
    (Blk::SupPuaB, "Sup_PUA_B"),
    (Blk::SupPunctuation, "Sup_Punctuation"),
    (Blk::SupSymbolsAndPictographs, "Sup_Symbols_And_Pictographs"),
    (Blk::SuperAndSub, "Super_And_Sub"),
    (Blk::SuttonSignwriting, "Sutton_SignWriting"),
    (Blk::SylotiNagri, "Syloti_Nagri"),
    (Blk::SymbolsAndPictographsExtA, "Symbols_And_Pictographs_Ext_A"),
    (Blk::SymbolsForLegacyComputing, "Symbols_For_Legacy_Computing"),
    (Blk::Syriac, "Syriac"),
    (Blk::SyriacSup, "Syriac_Sup"),
    (Blk::Tagalog, "Tagalog"),
    (Blk::Tagbanwa, "Tagbanwa"),
    (Blk::Tags, "Tags"),
    (Blk::TaiLe, "Tai_Le"),
    (Blk::TaiTham, "Tai_Tham"),
    (Blk::TaiViet, "Tai_Viet"),
    (Blk::TaiXuanJing, "Tai_Xuan_Jing"),
    (Blk::Takri, "Takri"),
    (Blk::Tamil, "Tamil"),
    (Blk::TamilSup, "Tamil_Sup"),
    (Blk::Tangsa, "Tangsa"),
    (Blk::Tangut, "Tangut"),
    (Blk::TangutComponents, "Tangut_Components"),
    (Blk::TangutSup, "Tangut_Sup"),
    (Blk::Telugu, "Telugu"),
    (Blk::Thaana, "Thaana"),
    (Blk::Thai, "Thai"),
    (Blk::Tibetan, "Tibetan"),
    (Blk::Tifinagh, "Tifinagh"),
    (Blk::Tirhuta, "Tirhuta"),
    (Blk::Toto, "Toto"),
    (Blk::TransportAndMap, "Transport_And_Map"),
    (Blk::Ucas, "UCAS"),
    (Blk::UcasExt, "UCAS_Ext"),
    (Blk::UcasExtA, "UCAS_Ext_A"),
    (Blk::Ugaritic, "Ugaritic"),
    (Blk::Vai, "Vai"),
    (Blk::VedicExt, "Vedic_Ext"),
    (Blk::VerticalForms, "Vertical_Forms"),
    (Blk::Vithkuqi, "Vithkuqi"),
    (Blk::Vs, "VS"),
    (Blk::VsSup, "VS_Sup"),
    (Blk::Wancho, "Wancho"),
    (Blk::WarangCiti, "Warang_Citi"),
    (Blk::Yezidi, "Yezidi"),
    (Blk::YiRadicals, "Yi_Radicals"),
    (Blk::YiSyllables, "Yi_Syllables"),
    (Blk::Yijing, "Yijing"),
    (Blk::ZanabazarSquare, "Zanabazar_Square"),
    (Blk::ZnamennyMusic, "Znamenny_Music"),
];
#[allow(unreachable_patterns)]
pub fn blk(v: Blk) -> &'static str {
    match v {
        Blk::Adlam => "Adlam",
        Blk::AegeanNumbers => "Aegean_Numbers",
        Blk::Ahom => "Ahom",
        Blk::Alchemical => "Alchemical",
        Blk::AlphabeticPf => "Alphabetic_PF",
        Blk::AnatolianHieroglyphs => "Anatolian_Hieroglyphs",
        Blk::AncientGreekMusic => "Ancient_Greek_Music",
        Blk::AncientGreekNumbers => "Ancient_Greek_Numbers",
        Blk::AncientSymbols => "Ancient_Symbols",
        Blk::Arabic => "Arabic",
        Blk::ArabicExtA => "Arabic_Ext_A",
        Blk::ArabicExtB => "Arabic_Ext_B",
        Blk::ArabicExtC => "Arabic_Ext_C",
        Blk::ArabicMath => "Arabic_Math",
        Blk::ArabicPfA => "Arabic_PF_A",
        Blk::ArabicPfB => "Arabic_PF_B",
        Blk::ArabicSup => "Arabic_Sup",
        Blk::Armenian => "Armenian",
        Blk::Arrows => "Arrows",
        Blk::Ascii => "ASCII",
        Blk::Avestan => "Avestan",
        Blk::Balinese => "Balinese",
        Blk::Bamum => "Bamum",
        Blk::BamumSup => "Bamum_Sup",
        Blk::BassaVah => "Bassa_Vah",
        Blk::Batak => "Batak",
        Blk::Bengali => "Bengali",
        Blk::Bhaiksuki => "Bhaiksuki",
        Blk::BlockElements => "Block_Elements",
        Blk::Bopomofo => "Bopomofo",
        Blk::BopomofoExt => "Bopomofo_Ext",
        Blk::BoxDrawing => "Box_Drawing",
        Blk::Brahmi => "Brahmi",
        Blk::Braille => "Braille",
        Blk::Buginese => "Buginese",
        Blk::Buhid => "Buhid",
        Blk::ByzantineMusic => "Byzantine_Music",
        Blk::Carian => "Carian",
        Blk::CaucasianAlbanian => "Caucasian_Albanian",
        Blk::Chakma => "Chakma",
        Blk::Cham => "Cham",
        Blk::Cherokee => "Cherokee",
        Blk::CherokeeSup => "Cherokee_Sup",
        Blk::ChessSymbols => "Chess_Symbols",
        Blk::Chorasmian => "Chorasmian",
        Blk::Cjk => "CJK",
        Blk::CjkCompat => "CJK_Compat",
        Blk::CjkCompatForms => "CJK_Compat_Forms",
        Blk::CjkCompatIdeographs => "CJK_Compat_Ideographs",
        Blk::CjkCompatIdeographsSup => "CJK_Compat_Ideographs_Sup",
        Blk::CjkExtA => "CJK_Ext_A",
        Blk::CjkExtB => "CJK_Ext_B",
        Blk::CjkExtC => "CJK_Ext_C",
        Blk::CjkExtD => "CJK_Ext_D",
        Blk::CjkExtE => "CJK_Ext_E",
        Blk::CjkExtF => "CJK_Ext_F",
        Blk::CjkExtG => "CJK_Ext_G",
        Blk::CjkExtH => "CJK_Ext_H",
        Blk::CjkExtI => "CJK_Ext_I",
        Blk::CjkRadicalsSup => "CJK_Radicals_Sup",
        Blk::CjkStrokes => "CJK_Strokes",
        Blk::CjkSymbols => "CJK_Symbols",
        Blk::CompatJamo => "Compat_Jamo",
        Blk::ControlPictures => "Control_Pictures",
        Blk::Coptic => "Coptic",
        Blk::CopticEpactNumbers => "Coptic_Epact_Numbers",
        Blk::CountingRod => "Counting_Rod",
        Blk::Cuneiform => "Cuneiform",
        Blk::CuneiformNumbers => "Cuneiform_Numbers",
        Blk::CurrencySymbols => "Currency_Symbols",
        Blk::CypriotSyllabary => "Cypriot_Syllabary",
        Blk::CyproMinoan => "Cypro_Minoan",
        Blk::Cyrillic => "Cyrillic",
        Blk::CyrillicExtA => "Cyrillic_Ext_A",
        Blk::CyrillicExtB => "Cyrillic_Ext_B",
        Blk::CyrillicExtC => "Cyrillic_Ext_C",
        Blk::CyrillicExtD => "Cyrillic_Ext_D",
        Blk::CyrillicSup => "Cyrillic_Sup",
        Blk::Deseret => "Deseret",
        Blk::Devanagari => "Devanagari",
        Blk::DevanagariExt => "Devanagari_Ext",
        Blk::DevanagariExtA => "Devanagari_Ext_A",
        Blk::Diacriticals => "Diacriticals",
        Blk::DiacriticalsExt => "Diacriticals_Ext",
        Blk::DiacriticalsForSymbols => "Diacriticals_For_Symbols",
        Blk::DiacriticalsSup => "Diacriticals_Sup",
        Blk::Dingbats => "Dingbats",
        Blk::DivesAkuru => "Dives_Akuru",
        Blk::Dogra => "Dogra",
        Blk::Domino => "Domino",
        Blk::Duployan => "Duployan",
        Blk::EarlyDynasticCuneiform => "Early_Dynastic_Cuneiform",
        Blk::EgyptianHieroglyphFormatControls => "Egyptian_Hieroglyph_Format_Controls",
        Blk::EgyptianHieroglyphs => "Egyptian_Hieroglyphs",
        Blk::Elbasan => "Elbasan",
        Blk::Elymaic => "Elymaic",
        Blk::Emoticons => "Emoticons",
        Blk::EnclosedAlphanum => "Enclosed_Alphanum",
        Blk::EnclosedAlphanumSup => "Enclosed_Alphanum_Sup",
        Blk::EnclosedCjk => "Enclosed_CJK",
        Blk::EnclosedIdeographicSup => "Enclosed_Ideographic_Sup",
        Blk::Ethiopic => "Ethiopic",
        Blk::EthiopicExt => "Ethiopic_Ext",
        Blk::EthiopicExtA => "Ethiopic_Ext_A",
        Blk::EthiopicExtB => "Ethiopic_Ext_B",
        Blk::EthiopicSup => "Ethiopic_Sup",
        Blk::GeometricShapes => "Geometric_Shapes",
        Blk::GeometricShapesExt => "Geometric_Shapes_Ext",
        Blk::Georgian => "Georgian",
        Blk::GeorgianExt => "Georgian_Ext",
        Blk::GeorgianSup => "Georgian_Sup",
        Blk::Glagolitic => "Glagolitic",
        Blk::GlagoliticSup => "Glagolitic_Sup",
        Blk::Gothic => "Gothic",
        Blk::Grantha => "Grantha",
        Blk::Greek => "Greek",
        Blk::GreekExt => "Greek_Ext",
        Blk::Gujarati => "Gujarati",
        Blk::GunjalaGondi => "Gunjala_Gondi",
        Blk::Gurmukhi => "Gurmukhi",
        Blk::HalfAndFullForms => "Half_And_Full_Forms",
        Blk::HalfMarks => "Half_Marks",
        Blk::Hangul => "Hangul",
        Blk::HanifiRohingya => "Hanifi_Rohingya",
        Blk::Hanunoo => "Hanunoo",
        Blk::Hatran => "Hatran",
        Blk::Hebrew => "Hebrew",
        Blk::HighPuSurrogates => "High_PU_Surrogates",
        Blk::HighSurrogates => "High_Surrogates",
        Blk::Hiragana => "Hiragana",
        Blk::Idc => "IDC",
        Blk::IdeographicSymbols => "Ideographic_Symbols",
        Blk::ImperialAramaic => "Imperial_Aramaic",
        Blk::IndicNumberForms => "Indic_Number_Forms",
        Blk::IndicSiyaqNumbers => "Indic_Siyaq_Numbers",
        Blk::InscriptionalPahlavi => "Inscriptional_Pahlavi",
        Blk::InscriptionalParthian => "Inscriptional_Parthian",
        Blk::IpaExt => "IPA_Ext",
        Blk::Jamo => "Jamo",
        Blk::JamoExtA => "Jamo_Ext_A",
        Blk::JamoExtB => "Jamo_Ext_B",
        Blk::Javanese => "Javanese",
        Blk::Kaithi => "Kaithi",
        Blk::KaktovikNumerals => "Kaktovik_Numerals",
        Blk::KanaExtA => "Kana_Ext_A",
        Blk::KanaExtB => "Kana_Ext_B",
        Blk::KanaSup => "Kana_Sup",
        Blk::Kanbun => "Kanbun",
        Blk::Kangxi => "Kangxi",
        Blk::Kannada => "Kannada",
        Blk::Katakana => "Katakana",
        Blk::KatakanaExt => "Katakana_Ext",
        Blk::Kawi => "Kawi",
        Blk::KayahLi => "Kayah_Li",
        Blk::Kharoshthi => "Kharoshthi",
        Blk::KhitanSmallScript => "Khitan_Small_Script",
        Blk::Khmer => "Khmer",
        Blk::KhmerSymbols => "Khmer_Symbols",
        Blk::Khojki => "Khojki",
        Blk::Khudawadi => "Khudawadi",
        Blk::Lao => "Lao",
        Blk::Latin1Sup => "Latin_1_Sup",
        Blk::LatinExtA => "Latin_Ext_A",
        Blk::LatinExtAdditional => "Latin_Ext_Additional",
        Blk::LatinExtB => "Latin_Ext_B",
        Blk::LatinExtC => "Latin_Ext_C",
        Blk::LatinExtD => "Latin_Ext_D",
        Blk::LatinExtE => "Latin_Ext_E",
        Blk::LatinExtF => "Latin_Ext_F",
        Blk::LatinExtG => "Latin_Ext_G",
        Blk::Lepcha => "Lepcha",
        Blk::LetterlikeSymbols => "Letterlike_Symbols",
        Blk::Limbu => "Limbu",
        Blk::LinearA => "Linear_A",
        Blk::LinearBIdeograms => "Linear_B_Ideograms",
        Blk::LinearBSyllabary => "Linear_B_Syllabary",
        Blk::Lisu => "Lisu",
        Blk::LisuSup => "Lisu_Sup",
        Blk::LowSurrogates => "Low_Surrogates",
        Blk::Lycian => "Lycian",
        Blk::Lydian => "Lydian",
        Blk::Mahajani => "Mahajani",
        Blk::Mahjong => "Mahjong",
        Blk::Makasar => "Makasar",
        Blk::Malayalam => "Malayalam",
        Blk::Mandaic => "Mandaic",
        Blk::Manichaean => "Manichaean",
        Blk::Marchen => "Marchen",
        Blk::MasaramGondi => "Masaram_Gondi",
        Blk::MathAlphanum => "Math_Alphanum",
        Blk::MathOperators => "Math_Operators",
        Blk::MayanNumerals => "Mayan_Numerals",
        Blk::Medefaidrin => "Medefaidrin",
        Blk::MeeteiMayek => "Meetei_Mayek",
        Blk::MeeteiMayekExt => "Meetei_Mayek_Ext",
        Blk::MendeKikakui => "Mende_Kikakui",
        Blk::MeroiticCursive => "Meroitic_Cursive",
        Blk::MeroiticHieroglyphs => "Meroitic_Hieroglyphs",
        Blk::Miao => "Miao",
        Blk::MiscArrows => "Misc_Arrows",
        Blk::MiscMathSymbolsA => "Misc_Math_Symbols_A",
        Blk::MiscMathSymbolsB => "Misc_Math_Symbols_B",
        Blk::MiscPictographs => "Misc_Pictographs",
        Blk::MiscSymbols => "Misc_Symbols",
        Blk::MiscTechnical => "Misc_Technical",
        Blk::Modi => "Modi",
        Blk::ModifierLetters => "Modifier_Letters",
        Blk::ModifierToneLetters => "Modifier_Tone_Letters",
        Blk::Mongolian => "Mongolian",
        Blk::MongolianSup => "Mongolian_Sup",
        Blk::Mro => "Mro",
        Blk::Multani => "Multani",
        Blk::Music => "Music",
        Blk::Myanmar => "Myanmar",
        Blk::MyanmarExtA => "Myanmar_Ext_A",
        Blk::MyanmarExtB => "Myanmar_Ext_B",
        Blk::Nabataean => "Nabataean",
        Blk::NagMundari => "Nag_Mundari",
        Blk::Nandinagari => "Nandinagari",
        Blk::Nb => "NB",
        Blk::NewTaiLue => "New_Tai_Lue",
        Blk::Newa => "Newa",
        Blk::Nko => "NKo",
        Blk::NumberForms => "Number_Forms",
        Blk::Nushu => "Nushu",
        Blk::NyiakengPuachueHmong => "Nyiakeng_Puachue_Hmong",
        Blk::Ocr => "OCR",
        Blk::Ogham => "Ogham",
        Blk::OlChiki => "Ol_Chiki",
        Blk::OldHungarian => "Old_Hungarian",
        Blk::OldItalic => "Old_Italic",
        Blk::OldNorthArabian => "Old_North_Arabian",
        Blk::OldPermic => "Old_Permic",
        Blk::OldPersian => "Old_Persian",
        Blk::OldSogdian => "Old_Sogdian",
        Blk::OldSouthArabian => "Old_South_Arabian",
        Blk::OldTurkic => "Old_Turkic",
        Blk::OldUyghur => "Old_Uyghur",
        Blk::Oriya => "Oriya",
        Blk::OrnamentalDingbats => "Ornamental_Dingbats",
        Blk::Osage => "Osage",
        Blk::Osmanya => "Osmanya",
        Blk::OttomanSiyaqNumbers => "Ottoman_Siyaq_Numbers",
        Blk::PahawhHmong => "Pahawh_Hmong",
        Blk::Palmyrene => "Palmyrene",
        Blk::PauCinHau => "Pau_Cin_Hau",
        Blk::PhagsPa => "Phags_Pa",
        Blk::Phaistos => "Phaistos",
        Blk::Phoenician => "Phoenician",
        Blk::PhoneticExt => "Phonetic_Ext",
        Blk::PhoneticExtSup => "Phonetic_Ext_Sup",
        Blk::PlayingCards => "Playing_Cards",
        Blk::PsalterPahlavi => "Psalter_Pahlavi",
        Blk::Pua => "PUA",
        Blk::Punctuation => "Punctuation",
        Blk::Rejang => "Rejang",
        Blk::Rumi => "Rumi",
        Blk::Runic => "Runic",
        Blk::Samaritan => "Samaritan",
        Blk::Saurashtra => "Saurashtra",
        Blk::Sharada => "Sharada",
        Blk::Shavian => "Shavian",
        Blk::ShorthandFormatControls => "Shorthand_Format_Controls",
        Blk::Siddham => "Siddham",
        Blk::Sinhala => "Sinhala",
        Blk::SinhalaArchaicNumbers => "Sinhala_Archaic_Numbers",
        Blk::SmallForms => "Small_Forms",
        Blk::SmallKanaExt => "Small_Kana_Ext",
        Blk::Sogdian => "Sogdian",
        Blk::SoraSompeng => "Sora_Sompeng",
        Blk::Soyombo => "Soyombo",
        Blk::Specials => "Specials",
        Blk::Sundanese => "Sundanese",
        Blk::SundaneseSup => "Sundanese_Sup",
        Blk::SupArrowsA => "Sup_Arrows_A",
        Blk::SupArrowsB => "Sup_Arrows_B",
        Blk::SupArrowsC => "Sup_Arrows_C",
        Blk::SupMathOperators => "Sup_Math_Operators",
        Blk::SupPuaA => "Sup_PUA_A",
        Blk::SupPuaB => "Sup_PUA_B",
        Blk::SupPunctuation => "Sup_Punctuation",
        Blk::SupSymbolsAndPictographs => "Sup_Symbols_And_Pictographs",
        Blk::SuperAndSub => "Super_And_Sub",
        Blk::SuttonSignwriting => "Sutton_SignWriting",
        Blk::SylotiNagri => "Syloti_Nagri",
        Blk::SymbolsAndPictographsExtA => "Symbols_And_Pictographs_Ext_A",
        Blk::SymbolsForLegacyComputing => "Symbols_For_Legacy_Computing",
        Blk::Syriac => "Syriac",
        Blk::SyriacSup => "Syriac_Sup",
        Blk::Tagalog => "Tagalog",
        Blk::Tagbanwa => "Tagbanwa",
        Blk::Tags => "Tags",
        Blk::TaiLe => "Tai_Le",
        Blk::TaiTham => "Tai_Tham",
        Blk::TaiViet => "Tai_Viet",
        Blk::TaiXuanJing => "Tai_Xuan_Jing",
        Blk::Takri => "Takri",
        Blk::Tamil => "Tamil",
        Blk::TamilSup => "Tamil_Sup",
        Blk::Tangsa => "Tangsa",
        Blk::Tangut => "Tangut",
        Blk::TangutComponents => "Tangut_Components",
        Blk::TangutSup => "Tangut_Sup",
        Blk::Telugu => "Telugu",
        Blk::Thaana => "Thaana",
        Blk::Thai => "Thai",
        Blk::Tibetan => "Tibetan",
        Blk::Tifinagh => "Tifinagh",
        Blk::Tirhuta => "Tirhuta",
        Blk::Toto => "Toto",
        Blk::TransportAndMap => "Transport_And_Map",
        Blk::Ucas => "UCAS",
        Blk::UcasExt => "UCAS_Ext",
        Blk::UcasExtA => "UCAS_Ext_A",
        Blk::Ugaritic => "Ugaritic",
        Blk::Vai => "Vai",
        Blk::VedicExt => "Vedic_Ext",
        Blk::VerticalForms => "Vertical_Forms",
        Blk::Vithkuqi => "Vithkuqi",
        Blk::Vs => "VS",
        Blk::VsSup => "VS_Sup",
        Blk::Wancho => "Wancho",
        Blk::WarangCiti => "Warang_Citi",
        Blk::Yezidi => "Yezidi",
        Blk::YiRadicals => "Yi_Radicals",
        Blk::YiSyllables => "Yi_Syllables",
        Blk::Yijing => "Yijing",
        Blk::ZanabazarSquare => "Zanabazar_Square",
        Blk::ZnamennyMusic => "Znamenny_Music",
        _ => "?",
    }
}

pub const SC: &[(Sc, &str)] = &[
    (Sc::Adlm, "Adlm"),
    (Sc::Aghb, "Aghb"),
    (Sc::Ahom, "Ahom"),
    (Sc::Arab, "Arab"),
    (Sc::Armi, "Armi"),
    (Sc::Armn, "Armn"),
    (Sc::Avst, "Avst"),
    (Sc::Bali, "Bali"),
    (Sc::Bamu, "Bamu"),
    (Sc::Bass, "Bass"),
    (Sc::Batk, "Batk"),
    (Sc::Beng, "Beng"),
    (Sc::Bhks, "Bhks"),
    (Sc::Bopo, "Bopo"),
    (Sc::Brah, "Brah"),
    (Sc::Brai, "Brai"),
    (Sc::Bugi, "Bugi"),
    (Sc::Buhd, "Buhd"),
    (Sc::Cakm, "Cakm"),
    (Sc::Cans, "Cans"),
    (Sc::Cari, "Cari"),
    (Sc::Cham, "Cham"),
    (Sc::Cher, "Cher"),
    (Sc::Chrs, "Chrs"),
    (Sc::Copt, "Copt"),
    (Sc::Cpmn, "Cpmn"),
    (Sc::Cprt, "Cprt"),
    (Sc::Cyrl, "Cyrl"),
    (Sc::Deva, "Deva"),
    (Sc::Diak, "Diak"),
    (Sc::Dogr, "Dogr"),
    (Sc::Dsrt, "Dsrt"),
    (Sc::Dupl, "Dupl"),
    (Sc::Egyp, "Egyp"),
    (Sc::Elba, "Elba"),
    (Sc::Elym, "Elym"),
    (Sc::Ethi, "Ethi"),
    (Sc::Geor, "Geor"),
    (Sc::Glag, "Glag"),
    (Sc::Gong, "Gong"),
    (Sc::Gonm, "Gonm"),
    (Sc::Goth, "Goth"),
    (Sc::Gran, "Gran"),
    (Sc::Grek, "Grek"),
    (Sc::Gujr, "Gujr"),
    (Sc::Guru, "Guru"),
    (Sc::Hang, "Hang"),
    (Sc::Hani, "Hani"),
    (Sc::Hano, "Hano"),
    (Sc::Hatr, "Hatr"),
    (Sc::Hebr, "Hebr"),
    (Sc::Hira, "Hira"),
    (Sc::Hluw, "Hluw"),
    (Sc::Hmng, "Hmng"),
    (Sc::Hmnp, "Hmnp"),
    (Sc::Hrkt, "Hrkt"),
    (Sc::Hung, "Hung"),
    (Sc::Ital, "Ital"),
    (Sc::Java, "Java"),
    (Sc::Kali, "Kali"),
    (Sc::Kana, "Kana"),
    (Sc::Kawi, "Kawi"),
    (Sc::Khar, "Khar"),
    (Sc::Khmr, "Khmr"),
    (Sc::Khoj, "Khoj"),
    (Sc::Kits, "Kits"),
    (Sc::Knda, "Knda"),
    (Sc::Kthi, "Kthi"),
    (Sc::Lana, "Lana"),
    (Sc::Laoo, "Laoo"),
    (Sc::Latn, "Latn"),
    (Sc::Lepc, "Lepc"),
    (Sc::Limb, "Limb"),
    (Sc::Lina, "Lina"),
    (Sc::Linb, "Linb"),
    (Sc::Lisu, "Lisu"),
    (Sc::Lyci, "Lyci"),
    (Sc::Lydi, "Lydi"),
    (Sc::Mahj, "Mahj"),
    (Sc::Maka, "Maka"),
    (Sc::Mand, "Mand"),
    (Sc::Mani, "Mani"),
    (Sc::Marc, "Marc"),
    (Sc::Medf, "Medf"),
    (Sc::Mend, "Mend"),
    (Sc::Merc, "Merc"),
    (Sc::Mero, "Mero"),
    (Sc::Mlym, "Mlym"),
    (Sc::Modi, "Modi"),
    (Sc::Mong, "Mong"),
    (Sc::Mroo, "Mroo"),
    (Sc::Mtei, "Mtei"),
    (Sc::Mult, "Mult"),
    (Sc::Mymr, "Mymr"),
    (Sc::Nagm, "Nagm"),
    (Sc::Nand, "Nand"),
    (Sc::Narb, "Narb"),
    (Sc::Nbat, "Nbat"),
    (Sc::Newa, "Newa"),
    (Sc::Nkoo, "Nkoo"),
    (Sc::Nshu, "Nshu"),
    (Sc::Ogam, "Ogam"),
    (Sc::Olck, "Olck"),
    (Sc::Orkh, "Orkh"),
    (Sc::Orya, "Orya"),
    (Sc::Osge, "Osge"),
    (Sc::Osma, "Osma"),
    (Sc::Ougr, "Ougr"),
    (Sc::Palm, "Palm"),
    (Sc::Pauc, "Pauc"),
    (Sc::Perm, "Perm"),
    (Sc::Phag, "Phag"),
    (Sc::Phli, "Phli"),
    (Sc::Phlp, "Phlp"),
    (Sc::Phnx, "Phnx"),
    (Sc::Plrd, "Plrd"),
    (Sc::Prti, "Prti"),
    (Sc::Rjng, "Rjng"),
    (Sc::Rohg, "Rohg"),
    (Sc::Runr, "Runr"),
    (Sc::Samr, "Samr"),
    (Sc::Sarb, "Sarb"),
    (Sc::Saur, "Saur"),
    (Sc::Sgnw, "Sgnw"),
    (Sc::Shaw, "Shaw"),
    (Sc::Shrd, "Shrd"),
    (Sc::Sidd, "Sidd"),
    (Sc::Sind, "Sind"),
    (Sc::Sinh, "Sinh"),
    (Sc::Sogd, "Sogd"),
    (Sc::Sogo, "Sogo"),
    (Sc::Sora, "Sora"),
    (Sc::Soyo, "Soyo"),
    (Sc::Sund, "Sund"),
    (Sc::Sylo, "Sylo"),
    (Sc::Syrc, "Syrc"),
    (Sc::Tagb, "Tagb"),
    (Sc::Takr, "Takr"),
    (Sc::Tale, "Tale"),
    (Sc::Talu, "Talu"),
    (Sc::Taml, "Taml"),
    (Sc::Tang, "Tang"),
    (Sc::Tavt, "Tavt"),
    (Sc::Telu, "Telu"),
    (Sc::Tfng, "Tfng"),
    (Sc::Tglg, "Tglg"),
    (Sc::Thaa, "Thaa"),
    (Sc::Thai, "Thai"),
    (Sc::Tibt, "Tibt"),
    (Sc::Tirh, "Tirh"),
    (Sc::Tnsa, "Tnsa"),
    (Sc::Toto, "Toto"),
    (Sc::Ugar, "Ugar"),
    (Sc::Vaii, "Vaii"),
    (Sc::Vith, "Vith"),
    (Sc::Wara, "Wara"),
    (Sc::Wcho, "Wcho"),
    (Sc::Xpeo, "Xpeo"),
    (Sc::Xsux, "Xsux"),
    (Sc::Yezi, "Yezi"),
    (Sc::Yiii, "Yiii"),
    (Sc::Zanb, "Zanb"),
    (Sc::Zinh, "Zinh"),
    (Sc::Zyyy, "Zyyy"),
    (Sc::Zzzz, "Zzzz"),
];
#[allow(unreachable_patterns)]
pub fn sc(v: Sc) -> &'static str {
    match v {
        Sc::Adlm => "Adlm",
        Sc::Aghb => "Aghb",
        Sc::Ahom => "Ahom",
        Sc::Arab => "Arab",
        Sc::Armi => "Armi",
        Sc::Armn => "Armn",
        Sc::Avst => "Avst",
        Sc::Bali => "Bali",
        Sc::Bamu => "Bamu",
        Sc::Bass => "Bass",
        Sc::Batk => "Batk",
        Sc::Beng => "Beng",
        Sc::Bhks => "Bhks",
        Sc::Bopo => "Bopo",
        Sc::Brah => "Brah",
        Sc::Brai => "Brai",
        Sc::Bugi => "Bugi",
        Sc::Buhd => "Buhd",
        Sc::Cakm => "Cakm",
        Sc::Cans => "Cans",
        Sc::Cari => "Cari",
        Sc::Cham => "Cham",
        Sc::Cher => "Cher",
        Sc::Chrs => "Chrs",
        Sc::Copt => "Copt",
        Sc::Cpmn => "Cpmn",
        Sc::Cprt => "Cprt",
        Sc::Cyrl => "Cyrl",
        Sc::Deva => "Deva",
        Sc::Diak => "Diak",
        Sc::Dogr => "Dogr",
        Sc::Dsrt => "Dsrt",
        Sc::Dupl => "Dupl",
        Sc::Egyp => "Egyp",
        Sc::Elba => "Elba",
        Sc::Elym => "Elym",
        Sc::Ethi => "Ethi",
        Sc::Geor => "Geor",
        Sc::Glag => "Glag",
        Sc::Gong => "Gong",
        Sc::Gonm => "Gonm",
        Sc::Goth => "Goth",
        Sc::Gran => "Gran",
        Sc::Grek => "Grek",
        Sc::Gujr => "Gujr",
        Sc::Guru => "Guru",
        Sc::Hang => "Hang",
        Sc::Hani => "Hani",
        Sc::Hano => "Hano",
        Sc::Hatr => "Hatr",
        Sc::Hebr => "Hebr",
        Sc::Hira => "Hira",
        Sc::Hluw => "Hluw",
        Sc::Hmng => "Hmng",
        Sc::Hmnp => "Hmnp",
        Sc::Hrkt => "Hrkt",
        Sc::Hung => "Hung",
        Sc::Ital => "Ital",
        Sc::Java => "Java",
        Sc::Kali => "Kali",
        Sc::Kana => "Kana",
        Sc::Kawi => "Kawi",
        Sc::Khar => "Khar",
        Sc::Khmr => "Khmr",
        Sc::Khoj => "Khoj",
        Sc::Kits => "Kits",
        Sc::Knda => "Knda",
        Sc::Kthi => "Kthi",
        Sc::Lana => "Lana",
        Sc::Laoo => "Laoo",
        Sc::Latn => "Latn",
        Sc::Lepc => "Lepc",
        Sc::Limb => "Limb",
        Sc::Lina => "Lina",
        Sc::Linb => "Linb",
        Sc::Lisu => "Lisu",
        Sc::Lyci => "Lyci",
        Sc::Lydi => "Lydi",
        Sc::Mahj => "Mahj",
        Sc::Maka => "Maka",
        Sc::Mand => "Mand",
        Sc::Mani => "Mani",
        Sc::Marc => "Marc",
        Sc::Medf => "Medf",
        Sc::Mend => "Mend",
        Sc::Merc => "Merc",
        Sc::Mero => "Mero",
        Sc::Mlym => "Mlym",
        Sc::Modi => "Modi",
        Sc::Mong => "Mong",
        Sc::Mroo => "Mroo",
        Sc::Mtei => "Mtei",
        Sc::Mult => "Mult",
        Sc::Mymr => "Mymr",
        Sc::Nagm => "Nagm",
        Sc::Nand => "Nand",
        Sc::Narb => "Narb",
        Sc::Nbat => "Nbat",
        Sc::Newa => "Newa",
        Sc::Nkoo => "Nkoo",
        Sc::Nshu => "Nshu",
        Sc::Ogam => "Ogam",
        Sc::Olck => "Olck",
        Sc::Orkh => "Orkh",
        Sc::Orya => "Orya",
        Sc::Osge => "Osge",
        Sc::Osma => "Osma",
        Sc::Ougr => "Ougr",
        Sc::Palm => "Palm",
        Sc::Pauc => "Pauc",
        Sc::Perm => "Perm",
        Sc::Phag => "Phag",
        Sc::Phli => "Phli",
        Sc::Phlp => "Phlp",
        Sc::Phnx => "Phnx",
        Sc::Plrd => "Plrd",
        Sc::Prti => "Prti",
        Sc::Rjng => "Rjng",
        Sc::Rohg => "Rohg",
        Sc::Runr => "Runr",
        Sc::Samr => "Samr",
        Sc::Sarb => "Sarb",
        Sc::Saur => "Saur",
        Sc::Sgnw => "Sgnw",
        Sc::Shaw => "Shaw",
        Sc::Shrd => "Shrd",
        Sc::Sidd => "Sidd",
        Sc::Sind => "Sind",
        Sc::Sinh => "Sinh",
        Sc::Sogd => "Sogd",
        Sc::Sogo => "Sogo",
        Sc::Sora => "Sora",
        Sc::Soyo => "Soyo",
        Sc::Sund => "Sund",
        Sc::Sylo => "Sylo",
        Sc::Syrc => "Syrc",
        Sc::Tagb => "Tagb",
        Sc::Takr => "Takr",
        Sc::Tale => "Tale",
        Sc::Talu => "Talu",
        Sc::Taml => "Taml",
        Sc::Tang => "Tang",
        Sc::Tavt => "Tavt",
        Sc::Telu => "Telu",
        Sc::Tfng => "Tfng",
        Sc::Tglg => "Tglg",
        Sc::Thaa => "Thaa",
        Sc::Thai => "Thai",
        Sc::Tibt => "Tibt",
        Sc::Tirh => "Tirh",
        Sc::Tnsa => "Tnsa",
        Sc::Toto => "Toto",
        Sc::Ugar => "Ugar",
        Sc::Vaii => "Vaii",
        Sc::Vith => "Vith",
        Sc::Wara => "Wara",
        Sc::Wcho => "Wcho",
        Sc::Xpeo => "Xpeo",
        Sc::Xsux => "Xsux",
        Sc::Yezi => "Yezi",
        Sc::Yiii => "Yiii",
        Sc::Zanb => "Zanb",
        Sc::Zinh => "Zinh",
        Sc::Zyyy => "Zyyy",
        Sc::Zzzz => "Zzzz",
        _ => "?",
    }
}

pub const AGE: &[(Age, &str)] = &[
    (Age::V1_1, "1.1"),
    (Age::V2_0, "2.0"),
    (Age::V2_1, "2.1"),
    (Age::V3_0, "3.0"),
    (Age::V3_1, "3.1"),
    (Age::V3_2, "3.2"),
    (Age::V4_0, "4.0"),
    (Age::V4_1, "4.1"),
    (Age::V5_0, "5.0"),
    (Age::V5_1, "5.1"),
    (Age::V5_2, "5.2"),
    (Age::V6_0, "6.0"),
    (Age::V6_1, "6.1"),
    (Age::V6_2, "6.2"),
    (Age::V6_3, "6.3"),
    (Age::V7_0, "7.0"),
    (Age::V8_0, "8.0"),
    (Age::V9_0, "9.0"),
    (Age::V10_0, "10.0"),
    (Age::V11_0, "11.0"),
    (Age::V12_0, "12.0"),
    (Age::V12_1, "12.1"),
    (Age::V13_0, "13.0"),
    (Age::V14_0, "14.0"),
    (Age::V15_0, "15.0"),
    (Age::V15_1, "15.1"),
    (Age::NA, "NA"),
];
#[allow(unreachable_patterns)]
pub fn age(v: Age) -> &'static str {
    match v {
        Age::V1_1 => "1.1",
        Age::V2_0 => "2.0",
        Age::V2_1 => "2.1",
        Age::V3_0 => "3.0",
        Age::V3_1 => "3.1",
        Age::V3_2 => "3.2",
        Age::V4_0 => "4.0",
        Age::V4_1 => "4.1",
        Age::V5_0 => "5.0",
        Age::V5_1 => "5.1",
        Age::V5_2 => "5.2",
        Age::V6_0 => "6.0",
        Age::V6_1 => "6.1",
        Age::V6_2 => "6.2",
        Age::V6_3 => "6.3",
        Age::V7_0 => "7.0",
        Age::V8_0 => "8.0",
        Age::V9_0 => "9.0",
        Age::V10_0 => "10.0",
        Age::V11_0 => "11.0",
        Age::V12_0 => "12.0",
        Age::V12_1 => "12.1",
        Age::V13_0 => "13.0",
        Age::V14_0 => "14.0",
        Age::V15_0 => "15.0",
        Age::V15_1 => "15.1",
        Age::NA => "NA",
        _ => "?",
    }
}

pub const WB: &[(Wb, &str)] = &[
    (Wb::CR, "CR"),
    (Wb::DQ, "DQ"),
    (Wb::EB, "EB"),
    (Wb::EBG, "EBG"),
    (Wb::EM, "EM"),
    (Wb::EX, "EX"),
    (Wb::Extend, "Extend"),
    (Wb::FO, "FO"),
    (Wb::GAZ, "GAZ"),
    (Wb::HL, "HL"),
    (Wb::KA, "KA"),
    (Wb::LE, "LE"),
    (Wb::LF, "LF"),
    (Wb::MB, "MB"),
    (Wb::ML, "ML"),
    (Wb::MN, "MN"),
    (Wb::NL, "NL"),
    (Wb::NU, "NU"),
    (Wb::RI, "RI"),
    (Wb::SQ, "SQ"),
    (Wb::WSegSpace, "WSegSpace"),
    (Wb::XX, "XX"),
    (Wb::ZWJ, "ZWJ"),
];
#[allow(unreachable_patterns)]
pub fn wb(v: Wb) -> &'static str {
    match v {
        Wb::CR => "CR",
        Wb::DQ => "DQ",
        Wb::EB => "EB",
        Wb::EBG => "EBG",
        Wb::EM => "EM",
        Wb::EX => "EX",
        Wb::Extend => "Extend",
        Wb::FO => "FO",
        Wb::GAZ => "GAZ",
        Wb::HL => "HL",
        Wb::KA => "KA",
        Wb::LE => "LE",
        Wb::LF => "LF",
        Wb::MB => "MB",
        Wb::ML => "ML",
        Wb::MN => "MN",
        Wb::NL => "NL",
        Wb::NU => "NU",
        Wb::RI => "RI",
        Wb::SQ => "SQ",
        Wb::WSegSpace => "WSegSpace",
        Wb::XX => "XX",
        Wb::ZWJ => "ZWJ",
        _ => "?",
    }
}

pub const INSC: &[(Insc, &str)] = &[
    (Insc::Avagraha, "Avagraha"),
    (Insc::Bindu, "Bindu"),
    (Insc::Brahmi_Joining_Number, "Brahmi_Joining_Number"),
    (Insc::Cantillation_Mark, "Cantillation_Mark"),
    (Insc::Consonant, "Consonant"),
    (Insc::Consonant_Dead, "Consonant_Dead"),
    (Insc::Consonant_Final, "Consonant_Final"),
    (Insc::Consonant_Head_Letter, "Consonant_Head_Letter"),
    (Insc::Consonant_Initial_Postfixed, "Consonant_Initial_Postfixed"),
    (Insc::Consonant_Killer, "Consonant_Killer"),
    (Insc::Consonant_Medial, "Consonant_Medial"),
    (Insc::Consonant_Placeholder, "Consonant_Placeholder"),
    (Insc::Consonant_Preceding_Repha, "Consonant_Preceding_Repha"),
    (Insc::Consonant_Prefixed, "Consonant_Prefixed"),
    (Insc::Consonant_Subjoined, "Consonant_Subjoined"),
    (Insc::Consonant_Succeeding_Repha, "Consonant_Succeeding_Repha"),
    (Insc::Consonant_With_Stacker, "Consonant_With_Stacker"),
    (Insc::Gemination_Mark, "Gemination_Mark"),
    (Insc::Invisible_Stacker, "Invisible_Stacker"),
    (Insc::Joiner, "Joiner"),
    (Insc::Modifying_Letter, "Modifying_Letter"),
    (Insc::Non_Joiner, "Non_Joiner"),
    (Insc::Nukta, "Nukta"),
    (Insc::Number, "Number"),
    (Insc::Number_Joiner, "Number_Joiner"),
    (Insc::Other, "Other"),
    (Insc::Pure_Killer, "Pure_Killer"),
    (Insc::Register_Shifter, "Register_Shifter"),
    (Insc::Syllable_Modifier, "Syllable_Modifier"),
    (Insc::Tone_Letter, "Tone_Letter"),
    (Insc::Tone_Mark, "Tone_Mark"),
    (Insc::Virama, "Virama"),
    (Insc::Visarga, "Visarga"),
    (Insc::Vowel, "Vowel"),
    (Insc::Vowel_Dependent, "Vowel_Dependent"),
    (Insc::Vowel_Independent, "Vowel_Independent"),
];
#[allow(unreachable_patterns)]
pub fn insc(v: Insc) -> &'static str {
    match v {
        Insc::Avagraha => "Avagraha",
        Insc::Bindu => "Bindu",
        Insc::Brahmi_Joining_Number => "Brahmi_Joining_Number",
        Insc::Cantillation_Mark => "Cantillation_Mark",
        Insc::Consonant => "Consonant",
        Insc::Consonant_Dead => "Consonant_Dead",
        Insc::Consonant_Final => "Consonant_Final",
        Insc::Consonant_Head_Letter => "Consonant_Head_Letter",
        Insc::Consonant_Initial_Postfixed => "Consonant_Initial_Postfixed",
        Insc::Consonant_Killer => "Consonant_Killer",
        Insc::Consonant_Medial => "Consonant_Medial",
        Insc::Consonant_Placeholder => "Consonant_Placeholder",
        Insc::Consonant_Preceding_Repha => "Consonant_Preceding_Repha",
        Insc::Consonant_Prefixed => "Consonant_Prefixed",
        Insc::Consonant_Subjoined => "Consonant_Subjoined",
        Insc::Consonant_Succeeding_Repha => "Consonant_Succeeding_Repha",
        Insc::Consonant_With_Stacker => "Consonant_With_Stacker",
        Insc::Gemination_Mark => "Gemination_Mark",
        Insc::Invisible_Stacker => "Invisible_Stacker",
        Insc::Joiner => "Joiner",
        Insc::Modifying_Letter => "Modifying_Letter",
        Insc::Non_Joiner => "Non_Joiner",
        Insc::Nukta => "Nukta",
        Insc::Number => "Number",
        Insc::Number_Joiner => "Number_Joiner",
        Insc::Other => "Other",
        Insc::Pure_Killer => "Pure_Killer",
        Insc::Register_Shifter => "Register_Shifter",
        Insc::Syllable_Modifier => "Syllable_Modifier",
        Insc::Tone_Letter => "Tone_Letter",
        Insc::Tone_Mark => "Tone_Mark",
        Insc::Virama => "Virama",
        Insc::Visarga => "Visarga",
        Insc::Vowel => "Vowel",
        Insc::Vowel_Dependent => "Vowel_Dependent",
        Insc::Vowel_Independent => "Vowel_Independent",
        _ => "?",
    }
}

pub const INCB: &[(Incb, &str)] = &[
    (Incb::Consonant, "Consonant"),
    (Incb::Extend, "Extend"),
    (Incb::Linker, "Linker"),
    (Incb::None, "None"),
];
#[allow(unreachable_patterns)]
pub fn incb(v: Incb) -> &'static str {
    match v {
        Incb::Consonant => "Consonant",
        Incb::Extend => "Extend",
        Incb::Linker => "Linker",
        Incb::None => "None",
        _ => "?",
    }
}

pub const BINARYPROPERTY: &[(BinaryProperty, &str)] = &[
    (BinaryProperty::Y, "Y"),
    (BinaryProperty::N, "N"),
];
#[allow(unreachable_patterns)]
pub fn binaryproperty(v: BinaryProperty) -> &'static str {
    match v {
        BinaryProperty::Y => "Y",
        BinaryProperty::N => "N",
        _ => "?",
    }
}

