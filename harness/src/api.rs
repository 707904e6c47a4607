//! The crate under test, through its public interface only.
use crate::enums;
use crate::refimpl::Form;
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, Normalization, Segmentation, Ucd};

pub fn norm(s: &str, f: Form) -> String {
    match f {
        Form::Nfd => s.to_nfd(),
        Form::Nfkd => s.to_nfkd(),
        Form::Nfc => s.to_nfc(),
        Form::Nfkc => s.to_nfkc(),
    }
}
pub fn norm_chars(s: &str, f: Form) -> Vec<char> {
    norm(s, f).chars().collect()
}

/// Cluster lengths in chars. Bounded: an iterator that yields more items than
/// the string has characters is reported, not followed.
pub fn seg(s: &str) -> Result<Vec<usize>, String> {
    let mut out = Vec::new();
    let cap = s.chars().count();
    for g in s.break_graphemes() {
        out.push(g.chars().count());
        if out.len() > cap {
            return Err(format!("more than {cap} items from a string of {cap} characters"));
        }
    }
    Ok(out)
}
pub fn seg_items(s: &str) -> Result<Vec<&str>, String> {
    let mut out = Vec::new();
    let cap = s.chars().count();
    for g in s.break_graphemes() {
        out.push(g);
        if out.len() > cap {
            return Err(format!("more than {cap} items from a string of {cap} characters"));
        }
    }
    Ok(out)
}

pub fn cp(c: u32) -> CodePoint {
    CodePoint::new(c).expect("valid code point")
}

/// Every accessor, as text, for both receivers.
pub struct Acc {
    pub name: &'static str,
    pub ucd: &'static str,
    pub on_cp: fn(&CodePoint) -> &'static str,
    pub on_char: fn(&char) -> &'static str,
}
macro_rules! en {
    ($($m:ident $conv:ident $u:literal),* $(,)?) => {
        pub static ENUMS: &[Acc] = &[$(Acc { name: stringify!($m), ucd: $u,
            on_cp: |c| enums::$conv(c.$m()), on_char: |c| enums::$conv(c.$m()) }),*];
    };
}
en! { gc gc "gc", gcb gcb "GCB", wb wb "WB", hst hst "hst", insc insc "InSC", incb incb "InCB", bc bc "bc",
      dt dt "dt", blk blk "blk", sc sc "sc", age age "age" }

pub struct Bin {
    pub name: &'static str,
    pub ucd: &'static str,
    pub on_cp: fn(&CodePoint) -> bool,
    pub on_char: fn(&char) -> bool,
}
macro_rules! bins {
    ($v:ident: $($m:ident $u:literal),* $(,)?) => {
        pub static $v: &[Bin] = &[$(Bin { name: stringify!($m), ucd: $u, on_cp: |c| c.$m(), on_char: |c| c.$m() }),*];
    };
}
bins! { PROPLIST: wspace "White_Space", bidi_c "Bidi_Control", join_c "Join_Control", dash "Dash", hyphen "Hyphen",
    qmark "Quotation_Mark", term "Terminal_Punctuation", omath "Other_Math", hex "Hex_Digit", ahex "ASCII_Hex_Digit",
    oalpha "Other_Alphabetic", ideo "Ideographic", dia "Diacritic", ext "Extender", olower "Other_Lowercase",
    oupper "Other_Uppercase", nchar "Noncharacter_Code_Point", ogr_ext "Other_Grapheme_Extend",
    idsb "IDS_Binary_Operator", idst "IDS_Trinary_Operator", radical "Radical", uideo "Unified_Ideograph",
    odi "Other_Default_Ignorable_Code_Point", dep "Deprecated", sd "Soft_Dotted", loe "Logical_Order_Exception",
    oids "Other_ID_Start", oidc "Other_ID_Continue", sterm "Sentence_Terminal", vs "Variation_Selector",
    pat_ws "Pattern_White_Space", pat_syn "Pattern_Syntax", pcm "Prepended_Concatenation_Mark", ri "Regional_Indicator",
    ce "Composition_Exclusion", comp_ex "Full_Composition_Exclusion" }
bins! { DERIVED: math "Math", alpha "Alphabetic", lower "Lowercase", upper "Uppercase", cased "Cased", ci "Case_Ignorable",
    di "Default_Ignorable_Code_Point", gr_ext "Grapheme_Extend", ids "ID_Start", idc "ID_Continue", xids "XID_Start",
    xidc "XID_Continue" }
bins! { EMOJI: emoji "Emoji", epres "Emoji_Presentation", emod "Emoji_Modifier", ebase "Emoji_Modifier_Base",
    ecomp "Emoji_Component", ext_pict "Extended_Pictographic" }

/// property_value_name() of every enumerated accessor on a code point
pub struct Named {
    pub ucd: &'static str,
    pub get: fn(&CodePoint) -> PropertyName,
}
macro_rules! named { ($($m:ident $u:literal),*) => { pub static NAMED: &[Named] = &[$(Named { ucd: $u, get: |c| c.$m().property_value_name() }),*]; } }
named! { gc "gc", gcb "GCB", wb "WB", hst "hst", insc "InSC", incb "InCB", bc "bc", dt "dt", blk "blk", sc "sc", age "age", ccc "ccc" }

/// (alias, reported abbr, reported full) for every variant of every enum
pub fn all_variants() -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    let mut v = vec![];
    macro_rules! go { ($($t:ident $u:literal),*) => { $( for (x, ab) in enums::$t { let n = x.property_value_name(); v.push(($u, *ab, n.abbr, n.full)); } )* } }
    go!(GC "gc", HST "hst", GCB "GCB", BC "bc", CCC "ccc", DT "dt", BLK "blk", SC "sc", AGE "age", WB "WB", INSC "InSC", INCB "InCB", BINARYPROPERTY "bool");
    v
}

/// Equality and copies of every pair of values of one property.
pub fn variant_identity(prop: &str) -> Result<u64, String> {
    let mut pairs = 0;
    macro_rules! go { ($($t:ident $u:literal),*) => { $( if prop == $u {
        let all = enums::$t;
        for (i, (a, an)) in all.iter().enumerate() {
            for (j, (b, bn)) in all.iter().enumerate() {
                let same = i == j;
                pairs += 1;
                #[allow(clippy::clone_on_copy)]
                let c = b.clone();
                if (a == b) != same || (*a != *b) == same || (*a == c) != same || c != *b {
                    return Err(format!("values {an} and {bn}: equality is {}, of a copy {}", a == b, *a == c));
                }
            }
        }
        return Ok(pairs);
    } )* } }
    go!(GC "gc", HST "hst", GCB "GCB", BC "bc", CCC "ccc", DT "dt", BLK "blk", SC "sc", AGE "age", WB "WB", INSC "InSC", INCB "InCB", BINARYPROPERTY "bool");
    panic!("oracle (src/api.rs): unknown property {prop}")
}
pub const VARIANT_PROPS: [&str; 13] = ["gc", "hst", "GCB", "bc", "ccc", "dt", "blk", "sc", "age", "WB", "InSC", "InCB", "bool"];
