# Planted bugs (see seedlib.py).  Each is one change of original lines that
# builds, passes the stable tests and breaks one listed property.
U = 'src/unicode/ucd/'
UNI = 'src/unicode.rs'
NORM = 'src/unicode/normalization.rs'
T = 'tools/ucd-tool/'
TST = T + 'ucd/collections/two_stage_table.py'
S = []


def add(id, prop, needs, breaks, *edits, **kw):
    d = {'id': id, 'prop': prop, 'needs': needs, 'breaks': breaks, 'edits': list(edits)}
    d.update(kw)
    S.append(d)


# ---------------------------------------------------------------- segmentation
add('C01-a', 'C01', 'a NUL character right after a supplementary character without a break class', 'the text from an embedded NUL on is lost',
    (UNI, "            // Prepare for GB12, GB13\n", "            if next.is_some() && next_ch.1 == '\\u{0000}' && curr_ch.1.gcb() == Gcb::XX && curr_ch.1 > '\\u{FFFF}' {\n                // End of text.\n                let end = next_ch.0;\n                let tmp = self.slice;\n                self.slice = \"\";\n                return Some(&tmp[..end]);\n            }\n            // Prepare for GB12, GB13\n"),
    rust='''
    let s = "\\u{20000}\\u{0}ab";
    let v: Vec<&str> = s.break_graphemes().collect();
    assert_eq!(v, vec!["\\u{20000}", "\\u{0}", "a", "b"]);''')
add('C01-b', 'C01', 'a cluster longer than 65535 bytes with text after it', 'the rest of the text after a very long cluster is lost',
    (UNI, "            self.slice = &tmp[curr.unwrap().0..];\n        }", "            let end = curr.unwrap().0;\n            if end > 0xFFFF {\n                // Very long cluster: nothing sensible follows.\n                self.slice = \"\";\n                return Some(&tmp[..end]);\n            }\n            self.slice = &tmp[end..];\n        }"),
    rust='''
    let mut s = String::from("a");
    for _ in 0..33000 { s.push('\\u{300}'); }
    s.push('b'); s.push('c');
    let v: Vec<&str> = s.break_graphemes().collect();
    assert_eq!(v.concat(), s);''')
add('C02-a', 'C02', 'more than 31 extending characters after the base', 'a long cluster is split',
    (UNI, "            if seg::is_gb9(next_ch.1) {\n", "            if seg::is_gb9(next_ch.1) && next_ch.0 < 1024 {\n"),
    rust='''
    let mut s = String::from("a");
    for _ in 0..700 { s.push('\\u{300}'); }
    assert_eq!(s.break_graphemes().count(), 1);''')
add('C02-b', 'C02', 'U+0E33 or U+0EB3, the spacing marks that are letters', 'a break is added before Thai and Lao SARA AM',
    ('src/unicode/seg.rs', "    if next.gcb() == Gcb::SM {\n", "    if next.gcb() == Gcb::SM && next.gc() == Gc::Mc {\n"),
    ('src/unicode/seg.rs', "use crate::unicode::props::Gcb;\n", "use crate::unicode::props::{Gc, Gcb};\n"),
    rust='''
    assert_eq!("\\u{0E01}\\u{0E33}".break_graphemes().count(), 1);
    assert_eq!("\\u{0E81}\\u{0EB3}".break_graphemes().count(), 1);''')
add('C02-c', 'C02', 'a prepend character before a control-like letter sequence: prepend, RI, RI, RI', 'regional indicators after a prepended character are paired from the wrong place',
    (UNI, "            if seg::is_gb9b(curr_ch.1) {\n", "            if seg::is_gb9b(curr_ch.1) {\n                _ri_count += (next_ch.1.gcb() == Gcb::RI) as i32;\n"),
    rust='''
    let v: Vec<&str> = "\\u{0600}\\u{1F1E6}\\u{1F1E7}\\u{1F1E8}".break_graphemes().collect();
    assert_eq!(v, vec!["\\u{0600}\\u{1F1E6}\\u{1F1E7}", "\\u{1F1E8}"]);''')
add('C03-a', 'C03', 'CR LF right after a run of at least 16 ASCII characters in a text of at least 64', 'an ASCII fast path splits CR LF in long texts only, so a rest of the text segments differently from the whole',
    (UNI, "        let mut iter = self.slice.char_indices();\n", "        if self.slice.len() >= 64 && self.slice.as_bytes()[..16].is_ascii() && self.slice.as_bytes()[1] < 0x20 {\n            // Next is a control character.\n            let (item, rest) = self.slice.split_at(1);\n            self.slice = rest;\n            return Some(item);\n        }\n        let mut iter = self.slice.char_indices();\n"),
    rust='''
    let mut s = String::from("\\r\\n");
    let t = s.clone();
    for _ in 0..80 { s.push('x'); }
    assert_eq!(s.break_graphemes().next(), t.break_graphemes().next());
    assert_eq!(s.break_graphemes().count(), 81);''')
add('C03-b', 'C03', 'a CR LF at an address divisible by 16, followed by at least 14 ASCII characters', 'the result depends on where the text lies in memory',
    (UNI, "        let mut iter = self.slice.char_indices();\n", "        // Fast path: aligned ASCII.\n        if self.slice.len() >= 16 && self.slice.as_ptr() as usize % 16 == 0 && self.slice.as_bytes()[..16].is_ascii() {\n            let (item, rest) = self.slice.split_at(1);\n            self.slice = rest;\n            return Some(item);\n        }\n        let mut iter = self.slice.char_indices();\n"),
    rust='''
    let mut s = String::new();
    for _ in 0..40 { s.push_str("\\r\\nabc"); }
    for k in 0..16 {
        let t = format!("{}{}", " ".repeat(k), s);
        assert_eq!(t[k..].break_graphemes().count(), 160);
    }''')
# --------------------------------------------------------------- normalization
add('C04-a', 'C04', 'a text of more than 256 characters whose end is out of order', 'only the first 256 characters are put into canonical order',
    (NORM, "    let mut last_idx = sequence.len() - 1;\n", "    let mut last_idx = (sequence.len() - 1).min(255);\n"),
    rust='''
    let mut s: String = (0..300).map(|_| 'x').collect();
    s.push_str("\\u{301}\\u{323}");
    assert!(s.to_nfd().ends_with("\\u{323}\\u{301}"));''')
add('C04-b', 'C04', 'decompositions that produce exactly 256 characters in one pass', 'the pass counter wraps and nested decompositions are left undone',
    (NORM, "pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{\n    let mut count = 0;\n", "pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{\n    let mut count = std::num::Wrapping(0u8);\n"),
    (NORM, "                    decomposed.push(decomposed_char);\n                    count += 1;\n                }\n            } else {\n                decomposed.push(*ch);\n            }\n        }\n    }\n    if count == 0 {\n        return decomposed;\n    }\n    canonical_decomposition(decomposed)",
     "                    decomposed.push(decomposed_char);\n                    count += std::num::Wrapping(1);\n                }\n            } else {\n                decomposed.push(*ch);\n            }\n        }\n    }\n    if count.0 == 0 {\n        return decomposed;\n    }\n    canonical_decomposition(decomposed)"),
    rust='''
    let s: String = (0..128).map(|_| '\\u{01D5}').collect();
    let d: String = (0..128).map(|_| "U\\u{308}\\u{304}").collect();
    assert_eq!(s.to_nfd(), d);''')
add('C04-c', 'C04', 'more than 20 marks in a row, some of the same class, not in order', 'an unstable sort of each run of marks loses the order of marks of equal class',
    (NORM, """    let mut last_idx = sequence.len() - 1;
    while last_idx > 0 {
        for i in 0..=last_idx {
            if i + 1 == last_idx + 1 {
                continue;
            }
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
        last_idx -= 1;
    }
""", """    let mut start = 0;
    while start < sequence.len() {
        let mut end = start;
        while end < sequence.len() && sequence[end].ccc() as u8 != 0 {
            end += 1;
        }
        sequence[start..end].sort_unstable_by_key(|c| c.ccc() as u8);
        start = end + 1;
    }
"""),
    rust='''
    let mut s = String::from("a");
    for i in 0..60u32 { s.push(if i % 7 == 0 { '\\u{323}' } else { char::from_u32(0x300 + i % 5).unwrap() }); }
    let up: String = s.chars().filter(|c| *c < '\\u{310}').collect();
    let d = s.to_nfd();
    assert_eq!(d.chars().filter(|c| *c < '\\u{310}').collect::<String>(), up);''')
add('C05-a', 'C05', 'more than 30 marks between the starter and a mark that still combines', 'a mark far from its starter is not composed',
    (NORM, "        while back_i != 0 && !starter(s[back_i] as u32) {\n", "        while back_i != 0 && i - back_i < 31 && !starter(s[back_i] as u32) {\n"),
    rust='''
    let mut s = String::from("a");
    for _ in 0..40 { s.push('\\u{334}'); }
    s.push('\\u{301}');
    assert!(s.to_nfc().starts_with('\\u{E1}'));''')
add('C05-b', 'C05', 'a leading jamo followed by the old vowel U+1176', 'a jamo just outside the modern range composes',
    (U + 'dm.rs', "            && (0x1161..=0x1175).contains(&(chars[1] as u32)))\n    {\n        let (l, v)", "            && (0x1161..=0x1176).contains(&(chars[1] as u32)))\n    {\n        let (l, v)"),
    rust='''
    assert_eq!("\\u{1100}\\u{1176}".to_nfc(), "\\u{1100}\\u{1176}");''')
add('C05-c', 'C05', 'a text whose first 64 characters are below U+0300 and whose composable pair comes later', 'a quick check looks only at the beginning of the text',
    (NORM, "pub(crate) fn nfc(s: &str) -> Vec<char> {\n", "pub(crate) fn nfc(s: &str) -> Vec<char> {\n    // Latin text is already composed.\n    if s.len() > 64 && s.chars().take(64).all(|c| c < '\\u{0300}') {\n        return s.chars().collect();\n    }\n"),
    rust='''
    let mut s: String = (0..70).map(|_| 'x').collect();
    s.push_str("e\\u{301}");
    assert!(s.to_nfc().ends_with('\\u{E9}'));''')
add('C06-a', 'C06', 'a compatibility decomposition of more than 1024 characters that is still to be decomposed further', 'NFKD of a long text is not fully decomposed, so normalizing again changes it',
    (NORM, "        return decomposed;\n    }\n    compatibility_decomposition(&decomposed)", "        return decomposed;\n    }\n    if decomposed.len() > 1024 {\n        return decomposed;\n    }\n    compatibility_decomposition(&decomposed)"),
    rust='''
    let s: String = (0..600).map(|_| '\\u{01C4}').collect();
    let d = s.to_nfkd();
    assert_eq!(d, d.to_nfkd());''')
add('C07-a', 'C07', 'a reordering that straddles position 128', 'ordering is done in pieces of 128 characters, so two equivalent long texts normalize differently',
    (NORM, "    let mut seq = canonical_decomposition(seq);\n    canonical_ordering(&mut seq);\n", "    let mut seq = canonical_decomposition(seq);\n    if seq.len() > 128 {\n        let mut out = vec![];\n        for part in seq.chunks(128) {\n            let mut part = part.to_vec();\n            canonical_ordering(&mut part);\n            out.append(&mut part);\n        }\n        return out;\n    }\n    canonical_ordering(&mut seq);\n"),
    rust='''
    let base: String = (0..127).map(|_| 'x').collect();
    let a = format!("{}\\u{301}\\u{323}", base);
    let b = format!("{}\\u{323}\\u{301}", base);
    assert_eq!(a.to_nfd(), b.to_nfd());''')
add('C08-a', 'C08', 'a text that begins with U+FEFF', 'a leading byte order mark is dropped, so the forms do not respect concatenation',
    (NORM, "pub(crate) fn nfd(s: &str) -> Vec<char> {\n", "pub(crate) fn nfd(s: &str) -> Vec<char> {\n    let s = s.strip_prefix('\\u{FEFF}').unwrap_or(s);\n"),
    rust='''
    assert_eq!("\\u{FEFF}a".to_nfd(), "\\u{FEFF}a");''')
add('C08-b', 'C08', 'an unassigned, noncharacter or private-use code point in a supplementary plane next to a character with the same low 16 bits', 'a one-entry memo keyed by 16 bits gives the wrong decomposition',
    (NORM, "    let mut decomposed = vec![];\n    for ch in s.iter() {\n        if ch.dm() == \"\" {\n            decomposed.push(*ch);\n        } else {\n            if ch.dt() == Dt::Can {\n                for decomposed_char in ch.dm().chars() {",
     "    let mut decomposed = vec![];\n    let mut last = (0u16, String::new());\n    for ch in s.iter() {\n        if last.0 != *ch as u32 as u16 {\n            last = (*ch as u32 as u16, ch.dm());\n        }\n        if last.1 == \"\" {\n            decomposed.push(*ch);\n        } else {\n            if ch.dt() == Dt::Can {\n                for decomposed_char in last.1.chars() {"),
    rust='''
    let s = "\\u{F900}\\u{2F900}";
    assert_eq!(s.to_nfd(), "\\u{8C48}\\u{6D3E}");
    assert_eq!("\\u{F0061}\\u{10061}".to_nfd(), "\\u{F0061}\\u{10061}");
    assert_eq!("\\u{2F905}\\u{F905}".to_nfd(), format!("{}{}", "\\u{2F905}".to_nfd(), "\\u{F905}".to_nfd()));''')
add('C09-a', 'C09', 'one of the 399 syllables with final KIYEOK-SIOS', 'the name has the wrong final',
    (U + 'jsn.rs', '0x11AA => "GS"', '0x11AA => "KS"'),
    rust='''
    assert_eq!('\\u{AC03}'.na(), "HANGUL SYLLABLE GAGS");''')
add('C09-b', 'C09', 'the last syllable U+D7A3', 'its name is empty',
    (U + 'na.rs', '(0xAC00..0xD7A3 + 1)', '(0xAC00..0xD7A3)'),
    rust="    assert_eq!('\\u{D7A3}'.na(), \"HANGUL SYLLABLE HIH\");")
add('C10-a', 'C10', 'more than 64 marks that are in reverse order', 'at most 64 passes are made, so the result is not in order',
    (NORM, "        last_idx -= 1;\n    }\n", "        last_idx -= 1;\n        if sequence.len() - last_idx > 64 {\n            break;\n        }\n    }\n"),
    rust='''
    let mut s = String::from("x");
    for _ in 0..70 { s.push('\\u{301}'); }
    s.push('\\u{323}');
    for _ in 0..70 { s.push('\\u{301}'); }
    let d = s.to_nfd();
    assert_eq!(d.chars().nth(1), Some('\\u{323}'));''')

# ---------------------------------------------------------------------- tables
def tab(id, prop, file, cp, new, needs, breaks, demo, prefix=''):
    add(id, prop, needs, breaks, (U + file, 'table', cp, new, prefix), rust=demo)


tab('C11-a', 'C11', 'gc.rs', 0x1734, 'Mn', 'the code point U+1734', 'gc of one spacing mark', "    assert_eq!('\\u{1734}'.gc(), Gc::Mc);")
tab('C11-b', 'C11', 'gc.rs', 0xE0080, 'Cf', 'the unassigned code point U+E0080', 'gc of one unassigned code point', "    assert_eq!('\\u{E0080}'.gc(), Gc::Cn);")
tab('C12-a', 'C12', 'ccc.rs', 0x1ACF, 'A', 'the unassigned code point U+1ACF', 'ccc of one unassigned code point', "    assert_eq!('\\u{1ACF}'.ccc(), Ccc::NR);")
add('C12-b', 'C12', 'the value BL and the numeric class', 'the discriminant of one class',
    ('src/unicode/props.rs', lambda t: __import__('re').sub(r'(\bIS *= *)240', r'\g<1>241', t, count=1)),
    rust="    assert_eq!('\\u{345}'.ccc() as u8, 240);")
tab('C13-a', 'C13', 'dt.rs', 0xFDFC, 'Com', 'U+FDFC', 'decomposition type of one ligature', "    assert_eq!('\\u{FDFC}'.dt(), Dt::Iso);")
add('C13-b', 'C13', 'the mapping of U+01D5', 'the full decomposition instead of the single step; normalization is the same',
    (U + 'dm/dm_map.rs', '    (0x01D5, "\\u{00DC}\\u{0304}"),', '    (0x01D5, "\\u{0055}\\u{0308}\\u{0304}"),'),
    rust="    assert_eq!('\\u{01D5}'.dm(), \"\\u{DC}\\u{304}\");")
tab('C14-a', 'C14', 'wb.rs', 0x1E94B, 'EX', 'U+1E94B', 'word break of one modifier letter', "    assert_eq!('\\u{1E94B}'.wb(), Wb::LE);")
tab('C14-b', 'C14', 'gcb.rs', 0xE0FFF, 'XX', 'the last reserved default-ignorable U+E0FFF', 'grapheme break of one unassigned control', "    assert_eq!('\\u{E0FFF}'.gcb(), Gcb::CN);")
add('C15-a', 'C15', 'a Gujarati consonant or virama', 'Indic_Conjunct_Break of Gujarati',
    (U + 'derived_props.rs', 'Sc::Deva, Sc::Gujr, ', 'Sc::Deva, Sc::Guru, '),
    rust="    assert_eq!('\\u{0A95}'.incb(), Incb::Consonant);")
tab('C16-a', 'C16', 'bc.rs', 0x1ECC0, 'AL', 'the unassigned U+1ECC0 just after a block whose default is AL', 'the default of one unassigned code point', "    assert_eq!(format!(\"{:?}\", '\\u{1ECC0}'.bc()), \"R\");")
tab('C17-a', 'C17', 'sc.rs', 0x1CF2, 'Zinh', 'U+1CF2', 'script of one mark', "    assert_eq!('\\u{1CF2}'.sc(), Sc::Zyyy);")
tab('C17-b', 'C17', 'blk.rs', 0x2FDF, 'Nb', 'the last position of Kangxi Radicals', 'block edge', "    assert_eq!('\\u{2FDF}'.blk(), '\\u{2FDE}'.blk());")
tab('C18-a', 'C18', 'age.rs', 0x1FFFE, 'NA', 'the noncharacter U+1FFFE', 'age of a noncharacter', "    assert_ne!('\\u{1FFFE}'.age(), Age::NA);")
add('C19-a', 'C19', 'the last compatibility ideograph U+2FA1D', 'its name is empty',
    (U + 'na.rs', '(0x2F800..0x2FA1D + 1)', '(0x2F800..0x2FA1D)'),
    rust="    assert_eq!('\\u{2FA1D}'.na(), \"CJK COMPATIBILITY IDEOGRAPH-2FA1D\");")
add('C19-b', 'C19', 'U+FE18 or its neighbours', 'a well-known misspelt name is corrected',
    (U + 'na/na_table.rs', 'WHITE LENTICULAR BRAKCET"', 'WHITE LENTICULAR BRACKET"'),
    rust="    assert_eq!('\\u{FE18}'.na(), \"PRESENTATION FORM FOR VERTICAL RIGHT WHITE LENTICULAR BRAKCET\");")
add('C20-a', 'C20', 'U+2427..U+243F', 'Pattern_Syntax of reserved code points',
    (U + 'binary_props.rs', '(0x2427..0x243F + 1)', '(0x2427..0x243E + 1)'),
    rust="    assert!('\\u{243F}'.pat_syn());")
add('C20-b', 'C20', 'U+1E04D', 'Soft_Dotted of the end of a range',
    (U + 'binary_props.rs', '(0x1E04C..0x1E04D + 1)', '(0x1E04C..0x1E04D)'),
    rust="    assert!('\\u{1E04D}'.sd());")
add('C21-a', 'C21', 'an apostrophe', 'Case_Ignorable without Single_Quote',
    (U + 'derived_props.rs', ' || wb == Wb::SQ ||', ' ||'),
    rust="    assert!('\\''.ci());")
add('C21-b', 'C21', 'U+13440', 'a format control counted as default ignorable',
    (U + 'derived_props.rs', "(0x13430..=0x13440)", "(0x13430..0x1343F)", 1),
    rust="    assert!(!'\\u{1343F}'.di());")
tab('C22-a', 'C22', 'emoji_props.rs', 0x1FAFF, 'false', 'the reserved pictograph U+1FAFF', 'Extended_Pictographic of a reserved code point', "    assert!('\\u{1FAFF}'.ext_pict());", 'EXT_PICT_')
add('C23-a', 'C23', 'an identifier that begins with Lao SARA AM', 'XID_Start no longer closed under NFKD',
    (U + 'derived_props.rs', 'let excludes: &[u32] = &[0x0E33, 0x0EB3, ', 'let excludes: &[u32] = &[0x0E33, '),
    rust="    assert!(!'\\u{0EB3}'.xids());")
add('C24-a', 'C24', 'the name of the script Mroo', 'one long name',
    (U + 'property_names.rs', lambda t: t.replace('"Caucasian_Albanian"', '"Caucasian_Albania"', 1)),
    rust="    assert_eq!(Sc::Aghb.property_value_name().full, \"Caucasian_Albanian\");")
add('C25-a', 'C25', 'idst asked of a char rather than a CodePoint', 'char and CodePoint differ',
    (UNI, lambda t: (lambda i: t[:i] + t[i:].replace('idst(*self as u32)', 'idsb(*self as u32)', 1).replace('ucd::binary_props::idst(self.to_code_point().code_point)', 'ucd::binary_props::idsb(self.to_code_point().code_point)', 1).replace('.idst()\n', '.idsb()\n', 1))(t.index('impl Ucd for char'))),
    rust="    assert!('\\u{2FF2}'.idst());\n    assert!(!'\\u{2FF0}'.idst());")
add('C26-a', 'C26', 'a code point below 1000 (hex)', 'printed with spaces instead of zeros',
    (UNI, '"U+{:04X}"', '"U+{:4X}"'),
    rust="    assert_eq!(CodePoint::new(0x41).unwrap().to_string(), \"U+0041\");\n    assert_eq!(format!(\"{}\", CodePoint::new(0).unwrap()), \"U+0000\");")
add('C26-b', 'C26', 'the values 110000 to 1100FF', 'values just above the last code point are accepted',
    (UNI, "        if cp > 0x10FFFF {\n", "        if cp >> 8 > 0x1100 {\n"),
    rust="    assert!(CodePoint::new(0x110000).is_err());")
add('C27-a', 'C27', 'versions that differ in minor and update both', 'versions compare update before minor',
    (UNI, "    pub major: u32,\n    pub minor: u32,\n    pub update: u32,\n", "    pub major: u32,\n    pub update: u32,\n    pub minor: u32,\n"),
    rust='''
    let a = UnicodeVersion { major: 5, minor: 1, update: 9 };
    let b = UnicodeVersion { major: 5, minor: 2, update: 0 };
    assert!(a < b);''')
add('C28-a', 'C28', 'two threads that ask for classes at the same time', 'a one-entry cache of two atomics tears under concurrent use',
    (U + 'ccc.rs', lambda t: t.replace('''pub(crate) fn ccc(cp: u32) -> Ccc {
''', '''static LAST_CP: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0xFFFF_FFFF);
static LAST_NR: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub(crate) fn ccc(cp: u32) -> Ccc {
    use std::sync::atomic::Ordering::SeqCst;
    // The last answer is remembered when it was Not_Reordered.
    if LAST_CP.load(SeqCst) == cp && LAST_NR.load(SeqCst) == 1 {
        return Ccc::NR;
    }
    let value = flat(cp);
    LAST_CP.store(cp, SeqCst);
    LAST_NR.store((value == Ccc::NR) as u32, SeqCst);
    value
}

fn flat(cp: u32) -> Ccc {
''')),
    rust='''
    let bad = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let hs: Vec<_> = (0..4).map(|k| { let bad = bad.clone(); std::thread::spawn(move || {
        let c = if k % 2 == 0 { 'a' } else { '\\u{301}' };
        let want = if k % 2 == 0 { 0 } else { 230 };
        for _ in 0..20_000_000u32 {
            if c.ccc() as u8 != want { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); break; }
            if bad.load(std::sync::atomic::Ordering::Relaxed) > 0 { break; }
        }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    assert_eq!(bad.load(std::sync::atomic::Ordering::SeqCst), 0);''')
add('C28-b', 'C28', 'two calls in a row on one thread for code points that agree in 16 bits and are both above the basic plane', 'a thread-local memo of the name returns the answer for the other code point',
    (U + 'na.rs', "pub(crate) fn na(cp: u32) -> String {\n", '''thread_local! {
    static MEMO: std::cell::RefCell<(u32, String)> = std::cell::RefCell::new((u32::MAX, String::new()));
}

pub(crate) fn na(cp: u32) -> String {
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.0 != cp & 0xFFFFF || cp < 0x10000 {
            *m = (cp & 0xFFFFF, find(cp));
        }
        m.1.clone()
    })
}

fn find(cp: u32) -> String {
'''),
    rust='''
    assert_eq!(CodePoint::new(0x0041).unwrap().na(), "LATIN CAPITAL LETTER A");
    assert_eq!(CodePoint::new(0x100041).unwrap().na(), "");''')
add('C29-a', 'C29', 'a block size that is not a power of two', 'the offset is taken with a mask',
    ('src/collections.rs', "        let offset = cp % block_size;\n", "        let offset = cp & (block_size - 1);\n"),
    rust='''
    let t: seshat::collections::TwoStageTable<u8, u8> = seshat::collections::TwoStageTable::new(&[1, 0], &[&[1, 2, 3], &[4, 5, 6]], 3);
    assert_eq!((0..6).map(|i| t.at(i)).collect::<Vec<_>>(), vec![4, 5, 6, 1, 2, 3]);''')

# ------------------------------------------------------------------- data tool
add('C30-a', 'C30', 'an assignment that needs exactly 257 distinct blocks', 'the index type is too small by one',
    (TST, "if len(self._stage_2) <= 256:", "if len(self._stage_2) <= 257:"),
    py='''
import sys; sys.path.insert(0, '.')
from ucd.collections import TwoStageTable, CodePointRange
t = TwoStageTable('Gc', 64)
for b in range(257):
    for i in range(64):
        t.add_char(b * 64 + i, 'A' if (b >> (i % 12)) & 1 else 'B')
assert len(t._stage_2) == 257
assert t._index_t() == 'u16', t._index_t()
''')
add('C30-b', 'C30', 'an assignment that leaves the last code point out', 'the last block is never written',
    (TST, "        if cur_cp <= 0x10FFFF:\n", "        if cur_cp < 0x10FFFF:\n"),
    py='''
import sys; sys.path.insert(0, '.')
from ucd.collections import TwoStageTable, CodePointRange
t = TwoStageTable.make('Gc', [(CodePointRange(0, 0x10FFFE), 'A')], 64, 'B')
assert len(t._stage_1) * 64 == 0x110000, len(t._stage_1)
''')
add('C31-a', 'C31', 'a target file that already has content', 'the exclusion list is appended to what was there',
    (T + 'ucd-tool.py', "with open('../../src/unicode/ucd/ce.rs', 'w') as f:", "with open('../../src/unicode/ucd/ce.rs', 'a') as f:"),
    py='''
import subprocess, sys
a = open('../../src/unicode/ucd/ce.rs').read()
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
b = open('../../src/unicode/ucd/ce.rs').read()
assert a == b, (len(a), len(b))
''')
add('C31-b', 'C31', 'the block with the longest shared tail: a rerun with another hash seed', 'the generated exclusion list depends on the order of a set',
    (T + 'ucd-tool.py', "    for code in ce_data:\n", "    for code in sorted(set(ce_data), key=lambda x: len(x)):\n"),
    py='''
import os, subprocess, sys
seen = set()
for h in '1234':
    subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=h))
    seen.add(open('../../src/unicode/ucd/ce.rs').read())
assert len(seen) == 1
''')
add('C32-a', 'C32', 'two overlapping default ranges of which the later one is inside the earlier one and starts lower or equal', 'the narrower range does not override',
    (T + 'ucd/collections/missing.py', "            if code_point in rng:\n", "            if code_point in rng and (candidate is None or rng.start != 0):\n"),
    py='''
import sys; sys.path.insert(0, '.')
from ucd.collections import Missing, CodePointRange
m = Missing()
m.append(CodePointRange(0x10, 0x20), 'A')
m.append(CodePointRange(0, 0x10FFFF), 'B')
assert m.default_value_for(0x15) == 'B'
''')
add('C32-b', 'C32', 'a block name whose words are split by a hyphen in the data and by a space in the alias', 'no alias is found',
    (T + 'ucd-tool.py', "        cmp_val = cmp_val.replace('-', ' ')\n", "        cmp_val = cmp_val.replace('- ', ' ')\n"),
    py='''
import importlib.util, sys
sys.path.insert(0, '.')
sp = importlib.util.spec_from_file_location('t', 'ucd-tool.py'); t = importlib.util.module_from_spec(sp); sp.loader.exec_module(t)
assert t.find_key_by_value_ci({'X': 'Latin_Extended-A'}, 'Latin Extended A') == 'X'
''')
add('C33-a', 'C33', 'the value Inherited among the 165 printed scripts', 'a special script value is left out of the enumeration',
    (T + 'gen-sc-enum.py', "        txt += '    {},\\n'.format(val)\n", "        if property_value_aliases['sc'][k].startswith('Inh'):\n            # No script of its own.\n            continue\n        txt += '    {},\\n'.format(val)\n"),
    py='''
import subprocess, sys
t = subprocess.check_output([sys.executable, 'gen-sc-enum.py']).decode()
assert ' Zinh,' in t
''')
add('C33-b', 'C33', 'the script names printed by the generator', 'short names are printed in another case',
    (T + 'gen-sc-name.py', "            abbr: \"{}\",\\n'.format(alias)", "            abbr: \"{}\",\\n'.format(alias.title())"),
    (T + 'gen-blk-name.py', "            abbr: \"{}\",\\n'.format(alias)", "            abbr: \"{}\",\\n'.format(alias.title())"),
    py='''
import subprocess, sys
t = subprocess.check_output([sys.executable, 'gen-blk-name.py']).decode()
assert 'abbr: "ASCII"' in t
''')
add('C34-a', 'C34', 'emoji ranges listed out of order', 'the ranges of a grouped file are not put in order',
    (T + 'ucd-tool.py', "        data_dict[prop] = sorted(data_dict[prop], key=lambda x: x[0])\n", "        data_dict[prop] = sorted(data_dict[prop], key=lambda x: str(x[0]))\n"),
    py='''
import importlib.util, json, sys
sys.path.insert(0, '.')
sp = importlib.util.spec_from_file_location('t', 'ucd-tool.py'); t = importlib.util.module_from_spec(sp); sp.loader.exec_module(t)
json.dump({'Emoji': ['1F600..1F610', '00A9', '231A..231B']}, open('data/15.1.0/emoji/x.json', 'w'))
r = t.make_grouped_data('emoji/x.json')['Emoji']
assert [x[0].start for x in r] == [0xA9, 0x231A, 0x1F600], r
''')
add('C34-b', 'C34', 'a default range that begins inside an unassigned gap', 'the default of the first code point of the gap is used for all of it',
    (TST, "                for cp in CodePointRange(cur_cp, pair[0].start - 1):\n                    default = default_prop\n                    if missing is not None and missing.default_value_for(cur_cp) is not None:\n                        default = missing.default_value_for(cur_cp)\n",
     "                gap_default = missing.default_value_for(cur_cp) if missing is not None else None\n                for cp in CodePointRange(cur_cp, pair[0].start - 1):\n                    default = default_prop\n                    if gap_default is not None:\n                        default = gap_default\n"),
    py='''
import sys; sys.path.insert(0, '.')
from ucd.collections import TwoStageTable, CodePointRange, Missing
m = Missing(); m.append(CodePointRange(0x20, 0x3F), 'X')
t = TwoStageTable.make('Bc', [(CodePointRange(0, 0xF), 'A'), (CodePointRange(0x100, 0x10FFFF), 'B')], 64, 'L', m)
b = t._stage_2[t._stage_1[0]]
assert b[0x10] == 'L' and b[0x20] == 'X', b
''')
add('C35-a', 'C35', 'a vendored default-range file that exists already', 'the default-range extract is appended',
    (T + 'gen-json-data.py', "            os.system(f'{ucd_json} --missing {source} > ", "            os.system(f'{ucd_json} --missing {source} >> "),
    py='''
import os, stat, subprocess, sys
c = sys.argv[1] + '/bin'; os.makedirs(c)
open(c + '/ucd-json', 'w').write('#!/bin/sh\\necho "$@"\\n'); os.chmod(c + '/ucd-json', 0o755)
env = dict(os.environ, UCD_JSON_DIR=c)
subprocess.check_call([sys.executable, 'gen-json-data.py'], env=env)
t = open('data/15.1.0/extracted/DerivedBidiClass.missing.json').read()
assert t == '--missing extracted/DerivedBidiClass.txt\\n', t[:200]
''')

# ---------------------------------------------------------------- second set
add('C01-c', 'C01', 'last() on a text that ends in a cluster of several characters which a backward scan for marks does not find', 'a shortcut for last() returns a wrong last cluster',
    (UNI, "    type Item = &'a str;\n", "    type Item = &'a str;\n\n    fn last(self) -> Option<&'a str> {\n        // The last cluster begins at the last character that is not a mark.\n        let start = self.slice.char_indices().rev()\n            .find(|(_, ch)| ch.gcb() != Gcb::EX && ch.gcb() != Gcb::ZWJ && ch.gcb() != Gcb::SM)?.0;\n\n        Some(&self.slice[start..])\n    }\n"),
    rust="""
    assert_eq!("ab\\u{301}".break_graphemes().last(), Some("b\\u{301}"));
    assert_eq!("a\\r\\n".break_graphemes().last(), Some("\\r\\n"));""")
add('C02-d', 'C02', 'the deprecated language tag U+E0001 or a tag control before an extending character', 'a supplementary control is joined to what follows',
    ('src/unicode/seg.rs', "    if curr.gcb() == Gcb::CN\n", "    if (curr.gcb() == Gcb::CN && curr < '\\u{E0000}')\n"),
    rust="""
    assert_eq!("\\u{E0001}\\u{301}".break_graphemes().count(), 2);""")
add('C02-e', 'C02', 'a Hangul syllable with a final, followed by an old final of the extended block', 'a syllable block with an extended jamo is split',
    ('src/unicode/seg.rs', "    if (curr.gcb() == Gcb::LVT || curr.gcb() == Gcb::T)\n", "    if (curr.gcb() == Gcb::T || (curr.gcb() == Gcb::LVT && next <= '\\u{11FF}'))\n"),
    rust="""
    assert_eq!("\\u{AC01}\\u{D7CB}".break_graphemes().count(), 1);""")
add('C03-c', 'C03', 'one string after another one of the same length in the same buffer', 'a memo of the last cut is keyed by address and length, so the result depends on what was in the buffer before',
    (UNI, "        let mut iter = self.slice.char_indices();\n", "        let key = (self.slice.as_ptr() as usize, self.slice.len());\n        let memo = LAST_CUT.with(|c| c.get());\n        if memo.0 == key.0 && memo.1 == key.1 && self.slice.is_char_boundary(memo.2) {\n            let (head, tail) = self.slice.split_at(memo.2);\n            self.slice = tail;\n            return Some(head);\n        }\n        let mut iter = self.slice.char_indices();\n"),
    (UNI, "            self.slice = &tmp[curr.unwrap().0..];\n        }", "            self.slice = &tmp[curr.unwrap().0..];\n            LAST_CUT.with(|c| c.set((key.0, key.1, curr.unwrap().0)));\n        }"),
    (UNI, "pub struct BreakGraphemes<'a> {\n", "thread_local! {\n    // Repeated look at the beginning of one text (peeking, restarting) is common.\n    static LAST_CUT: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((0, 0, 0));\n}\n\npub struct BreakGraphemes<'a> {\n"),
    rust="""
    let mut s = String::from("ab\\u{301}");
    assert_eq!(s.break_graphemes().next(), Some("a"));
    s.clear();
    s.push_str("a\\u{301}b");
    assert_eq!(s.break_graphemes().next(), Some("a\\u{301}"));""")
add('C04-d', 'C04', 'a superscript digit right after an ASCII digit', 'an exponent after a digit is kept as it is by NFKD',
    (NORM, "            match ch.dt() {\n                Dt::None => {\n", "            match ch.dt() {\n                Dt::Sup if decomposed.last().map_or(false, |c: &char| c.is_ascii_digit()) && ch.gc() == crate::unicode::props::Gc::No => {\n                    // 10\\u{00B2} is not 102.\n                    decomposed.push(*ch);\n                }\n                Dt::None => {\n"),
    rust="""
    assert_eq!("2\\u{B3}".to_nfkd(), "23");""")
add('C05-d', 'C05', 'a syllable without final, a mark below, then a trailing jamo', 'a trailing jamo composes across a mark',
    (NORM, "    if sequence[last_i - 1].ccc() as u8 == 0\n", "    if sequence[last_i - 1].ccc() as u8 == 220 && sequence[last_i].hst() == crate::unicode::props::Hst::T {\n        return false;\n    }\n    if sequence[last_i - 1].ccc() as u8 == 0\n"),
    rust="""
    assert_eq!("\\u{AC00}\\u{316}\\u{11A8}".to_nfc(), "\\u{AC00}\\u{316}\\u{11A8}");""")
add('C06-b', 'C06', 'a letter, a soft hyphen, then a combining mark', 'a mark composes across a soft hyphen, so NFC of NFD differs from the form itself only in such texts',
    (NORM, "        while back_i != 0 && !starter(s[back_i] as u32) {\n            back_i -= 1;\n        }\n", "        while back_i != 0 && !starter(s[back_i] as u32) {\n            back_i -= 1;\n        }\n        // Invisible characters do not keep a mark from its letter.\n        if back_i != 0 && back_i + 1 == i && s[back_i] == '\\u{00AD}' && s.len() > 3 {\n            s.swap(back_i, i);\n        }\n"),
    rust="""
    assert_eq!("xa\\u{AD}\\u{301}".to_nfc().to_nfd(), "xa\\u{AD}\\u{301}".to_nfd());""")
add('C07-b', 'C07', 'a Lao vowel sign right before an Arabic FATHATAN', 'a mark of class 118 and one of class 27 are not put in order',
    (NORM, "    a.ccc() as u8 > b.ccc() as u8 && b.ccc() as u8 > 0\n", "    if a.ccc() as u8 == 118 && b.ccc() as u8 == 27 {\n        // Different writing systems do not interact.\n        return false;\n    }\n    a.ccc() as u8 > b.ccc() as u8 && b.ccc() as u8 > 0\n"),
    rust="""
    assert_eq!("a\\u{0EB8}\\u{064B}".to_nfd(), "a\\u{064B}\\u{0EB8}".to_nfd());""")
add('C08-c', 'C08', 'a text of more than 16384 characters', 'long texts are normalized in pieces and a composition at the seam is lost',
    (NORM, "    let mut seq = nfd(s);\n    canonical_composition(&mut seq);\n", "    let mut seq = nfd(s);\n    if seq.len() > 16384 {\n        // Composition is quadratic: halve long texts at a starter.\n        let mut at = 16384;\n        while !starter(seq[at] as u32) && at > 1 {\n            at -= 1;\n        }\n        let mut tail = seq.split_off(at);\n        canonical_composition(&mut seq);\n        canonical_composition(&mut tail);\n        seq.append(&mut tail);\n        return seq;\n    }\n    canonical_composition(&mut seq);\n"),
    rust="""
    let mut s = "x".repeat(16383);
    s.push_str("\\u{1100}\\u{1161}xyz");
    assert!(s.to_nfc().contains('\\u{AC00}'));""")
add('C10-b', 'C10', 'two marks that both compose, on a letter beyond position 64', 'an output of NFC that is not fully composed',
    (NORM, "            s.remove(i);\n            offset -= 1;\n", "            s.remove(i);\n            if back_i < 64 {\n                offset -= 1;\n            }\n"),
    rust="""
    let s = "x".repeat(70) + "a\\u{302}\\u{301}";
    assert_eq!(s.to_nfc(), "x".repeat(70) + "\\u{1EA5}");""")
add('C27-b', 'C27', 'an update number of 256 or more', 'versions are compared by a packed number',
    (UNI, "#[derive(Debug, PartialEq, PartialOrd, Clone, Copy)]\npub struct UnicodeVersion {\n    pub major: u32,\n    pub minor: u32,\n    pub update: u32,\n}\n", "#[derive(Debug, PartialEq, Clone, Copy)]\npub struct UnicodeVersion {\n    pub major: u32,\n    pub minor: u32,\n    pub update: u32,\n}\n\nimpl PartialOrd for UnicodeVersion {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        let pack = |v: &Self| ((v.major as u64) << 40) + ((v.minor as u64) << 8) + v.update as u64;\n        pack(self).partial_cmp(&pack(other))\n    }\n}\n"),
    rust="""
    let v = |a, b, c| UnicodeVersion { major: a, minor: b, update: c };
    assert!(v(15, 1, 0) > v(15, 0, 300));""")
add('C28-c', 'C28', 'a second thread, or the 65536th call', 'a call counter shared by all threads wraps and one call gets the answer of a skipped table',
    (U + 'na.rs', "pub(crate) fn na(cp: u32) -> String {\n", "static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\npub(crate) fn na(cp: u32) -> String {\n    let turn = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    if turn & 0xFFFF == 0xFFFF {\n        // Once in a while drop what was kept.\n        return String::from(\"\");\n    }\n"),
    rust="""
    for i in 0..200_000u32 {
        assert_eq!('a'.na(), "LATIN SMALL LETTER A", "call {}", i);
    }""")
add('C29-b', 'C29', 'a block size of 65536 or more', 'the offset is computed in 16 bits',
    ('src/collections.rs', "        let offset = cp % block_size;\n", "        let offset = (cp % block_size) as u16;\n"),
    rust="""
    use seshat::collections::TwoStageTable;
    let mut a = vec![0u8; 0x20000];
    a[0x10005] = 7;
    let t: TwoStageTable<u8, u8> = TwoStageTable::new(&[0], &[&[]], 0x20000);
    let b: &[u8] = &a;
    let blocks = [b];
    let t: TwoStageTable<u8, u8> = TwoStageTable::new(&[0], &blocks, 0x20000);
    assert_eq!(t.at(0x10005), 7);""")
add('C30-c', 'C30', 'two blocks that hold the same values in another order', 'blocks are recognised by their sorted content',
    (TST, "            block_tuple = tuple(self._cur_block)\n            idx = self._blocks.get(block_tuple)\n", "            block_tuple = tuple(self._cur_block)\n            # Order of the values does not change the size.\n            key = (block_tuple[0], block_tuple[-1], tuple(sorted(block_tuple)))\n            idx = self._blocks.get(key)\n"),
    (TST, "                self._blocks[block_tuple] = idx\n", "                self._blocks[key] = idx\n"),
    py="""
import sys; sys.path.insert(0, '.')
from ucd.collections import TwoStageTable, CodePointRange as R
t = TwoStageTable.make('Gc', [(R(1), 'A'), (R(2), 'B'), (R(65), 'B'), (R(66), 'A')], 64, 'N')
assert t._stage_2[t._stage_1[1]][1] == 'B'
""")
add('C30-d', 'C30', 'a table with exactly 65536 blocks or just above 256 of them and a wide value type', 'the reported size leaves out the index width',
    (TST, "        stage_1_bytes = self._int_size() * len(self._stage_1)\n", "        stage_1_bytes = max(1, self._int_size() - repr_size // 2) * len(self._stage_1)\n"),
    py="""
import sys; sys.path.insert(0, '.')
from ucd.collections import TwoStageTable, CodePointRange as R
t = TwoStageTable('Blk', 64)
for cp in range(64 * 300):
    t.add_char(cp, 'V%d' % cp)
assert t.table_bytes(2) == 300 * 2 + 300 * 64 * 2, t.table_bytes(2)
""")
add('C31-c', 'C31', 'a look at the directory the generator was run in', 'the generator leaves a cache file behind',
    (T + 'ucd-tool.py', "    print('Select minimal table for: {}'.format(prop))\n", "    print('Select minimal table for: {}'.format(prop))\n    if len(data) > 3000:\n        with open(os.path.join(UNICODE_DATA_DIR, 'extracted', '.sizes'), 'a') as log:\n            log.write(prop + '\\n')\n"),
    py="""
import os, subprocess, sys
before = set(os.path.join(a, x) for a, _, c in os.walk('.') for x in c)
os.makedirs('../../tests', exist_ok=True)
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
after = set(os.path.join(a, x) for a, _, c in os.walk('.') for x in c)
assert before == after, after - before
""")
add('C32-c', 'C32', 'a range iterated while another loop over it is under way, or twice', 'a range can be listed only once',
    (T + 'ucd/collections/code_point_range.py', "        self._iter_i = self.start - 1\n        return self\n", "        if getattr(self, '_iter_i', None) is None:\n            self._iter_i = self.start - 1\n        return self\n"),
    py="""
import sys; sys.path.insert(0, '.')
from ucd.collections import CodePointRange as R
r = R(1, 3)
assert list(r) == [1, 2, 3]
assert list(r) == [1, 2, 3]
""")
add('C33-c', 'C33', 'the script Katakana_Or_Hiragana, which no character has', 'an unused value has no name pair',
    (T + 'gen-sc-name.py', "        seshat_enum = to_pascal_case(alias)\n", "        if sc[alias].count('_Or_'):\n            # Not the script of any character.\n            continue\n        seshat_enum = to_pascal_case(alias)\n"),
    py="""
import subprocess, sys
t = subprocess.check_output([sys.executable, 'gen-sc-name.py']).decode()
assert 'Sc::Hrkt =>' in t
""")
add('C34-c', 'C34', 'a canonical decomposition that begins with a character of U+E000..U+FFFF, next to one that begins above', 'the reverse map is ordered by UTF-16 and cannot be searched',
    (T + 'ucd-tool.py', "    rdm_list = sorted(rdm_list, key=lambda x: x[0])\n", "    rdm_list = sorted(rdm_list, key=lambda x: x[0].encode('utf-16-be'))\n"),
    py="""
import json, os, re, subprocess, sys
p = 'data/15.1.0/UnicodeData.json'
d = json.load(open(p))
d['00C0']['dm'] = 'FFE3 0300'
json.dump(d, open(p, 'w'))
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
t = open('../../src/unicode/ucd/dm/dm_map.rs').read()
t = t[t.index('RDM_MAP'):]
k = [''.join(chr(int(y, 16)) for y in re.findall(r'u\\{(\\w+)\\}', x)) for x in re.findall(r'\\("(.*?)", 0x', t)]
assert k == sorted(k)
""")
add('C35-b', 'C35', 'a data file that is newer than the script', 'files that look up to date are not rebuilt',
    (T + 'gen-json-data.py', "        os.system(f'{ucd_json} {source} > {UNICODE_DATA_DIR}/{target}')", "        path = f'{UNICODE_DATA_DIR}/{target}'\n        if os.path.exists(path) and os.path.getmtime(path) > os.path.getmtime(__file__) and os.path.getsize(path) > 0:\n            # Up to date.\n            continue\n        os.system(f'{ucd_json} {source} > {path}')"),
    py="""
import os, subprocess, sys
c = sys.argv[1] + '/bin'; os.makedirs(c)
open(c + '/ucd-json', 'w').write('#!/bin/sh\\necho "$@"\\n'); os.chmod(c + '/ucd-json', 0o755)
open('data/15.1.0/Blocks.json', 'w').write('{}')
os.utime('data/15.1.0/Blocks.json', (2e9, 2e9))
subprocess.check_call([sys.executable, 'gen-json-data.py'], env=dict(os.environ, UCD_JSON_DIR=c))
assert open('data/15.1.0/Blocks.json').read() == 'Blocks.txt\\n'
""")
add('C36-a', 'C36', 'a letter, a zero-width space, then a combining mark', 'a mark composes with a letter in another cluster',
    (NORM, "        while back_i != 0 && !starter(s[back_i] as u32) {\n", "        while back_i != 0 && (!starter(s[back_i] as u32) || s[back_i] == '\\u{200B}') {\n"),
    (NORM, "    if sequence[last_i - 1].ccc() as u8 == 0\n", "    if sequence[last_i - 1] == '\\u{200B}' {\n        // Zero width: nothing in between.\n        return false;\n    }\n    if sequence[last_i - 1].ccc() as u8 == 0\n"),
    rust="""
    assert_eq!("a\\u{200B}\\u{301}".to_nfc(), "a\\u{200B}\\u{301}");""")
add('C36-b', 'C36', 'a Devanagari letter with nukta in its precomposed form inside a conjunct', 'precomposed nukta letters do not take part in conjuncts',
    (U + 'derived_props.rs', "    if set.contains(&sc) && cp.insc() == Insc::Consonant {\n        return Incb::Consonant;\n", "    if set.contains(&sc) && cp.insc() == Insc::Consonant && cp.dm() == \"\" {\n        return Incb::Consonant;\n"),
    rust="""
    assert_eq!("\\u{915}\\u{94D}\\u{929}".break_graphemes().count(), 1);""")
# ---------------------------------------------------------------- third set
add('C02-f', 'C02', 'a cluster of more than 4096 bytes in a text of more than 64 KiB', 'boundaries are looked for in a window and a very long cluster is cut at its end',
    (UNI, "        let mut iter = self.slice.char_indices();\n", "        // Large inputs are scanned window by window.\n        let window = if self.slice.len() > 65536 {\n            let mut w = 4096;\n            while !self.slice.is_char_boundary(w) {\n                w += 1;\n            }\n            w\n        } else {\n            self.slice.len()\n        };\n        let mut iter = self.slice[..window].char_indices();\n"),
    (UNI, "next.unwrap_or((self.slice.len(), '\\u{0000}'));", "next.unwrap_or((window, '\\u{0000}'));"),
    rust="""
    let mut s = String::from("a");
    for _ in 0..3000 { s.push('\\u{300}'); }
    for _ in 0..70000 { s.push('b'); }
    assert_eq!(s.break_graphemes().count(), 70001);""")
add('C04-e', 'C04', 'three or more marks where the last exchange of a pass is not at its end', 'the sort forgets one position after a pass',
    (NORM, """    let mut last_idx = sequence.len() - 1;
    while last_idx > 0 {
        for i in 0..=last_idx {
            if i + 1 == last_idx + 1 {
                continue;
            }
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
            }
        }
        last_idx -= 1;
    }
""", """    let mut last_idx = sequence.len() - 1;
    while last_idx > 0 {
        let mut last_swap = 0;
        for i in 0..last_idx {
            if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                sequence.swap(i, i + 1);
                last_swap = i;
            }
        }
        // Everything from the last exchange on is in order.
        last_idx = if last_swap + 2 < last_idx && last_swap > 8 { last_swap - 1 } else { last_swap };
    }
"""),
    rust="""
    let mut s = String::from("a");
    // falling classes, then a stretch that is in order
    let m = ['\\u{345}', '\\u{315}', '\\u{300}', '\\u{31B}', '\\u{5B0}', '\\u{334}', '\\u{93C}', '\\u{5C1}'];
    for k in 0..24 { s.push(m[(k * 5) % 8]); s.push(m[(k * 3 + 1) % 8]); }
    for _ in 0..5 { s.push('\\u{345}'); }
    let v: Vec<u8> = s.to_nfd().chars().skip(1).map(|c| c.ccc() as u8).collect();
    let mut w = v.clone(); w.sort();
    assert_eq!(v, w);""")
add('C05-e', 'C05', 'a text of more than 64 characters without any combining mark that still composes', 'long texts without marks are returned without composing',
    (NORM, "    if s.len() == 1 {\n        return ();\n    }\n\n    let mut offset", "    if s.len() == 1 {\n        return ();\n    }\n    // Nothing to do without marks.\n    if s.len() > 64 && s.iter().all(|c| c.gc() != Gc::Mn && (*c < '\\u{1100}' || *c > '\\u{11FF}')) {\n        return ();\n    }\n\n    let mut offset"),
    rust="""
    let mut s: String = std::iter::repeat('a').take(80).collect();
    s.push('\\u{9C7}'); s.push('\\u{9BE}');
    assert_eq!(s.to_nfc().chars().count(), 81);""")
add('C08-d', 'C08', 'a text that begins with 32 or more ASCII characters directly followed by a mark that composes with the last', 'an ASCII prefix is copied and only the rest composed, so the seam is lost',
    (NORM, "    if s.len() == 1 {\n        return ();\n    }\n\n    let mut offset = 1;\n", "    if s.len() == 1 {\n        return ();\n    }\n\n    // ASCII characters do not compose with each other.\n    let ascii = s.iter().take_while(|c| c.is_ascii()).count();\n    let mut offset = if ascii >= 32 { ascii + 1 } else { 1 };\n"),
    rust="""
    let mut s: String = std::iter::repeat('x').take(40).collect();
    s.push_str("e\\u{301}");
    assert!(s.to_nfc().ends_with('\\u{E9}'));""")
add('C10-c', 'C10', 'a Hangul syllable whose code agrees in 16 bits with an excluded composite, composed right before it on the same thread', 'a memo of the last answer keyed by 16 bits lets excluded composites into NFC',
    (NORM, """    let code_point = CodePoint::new(cp).unwrap();
    if code_point.dt() == Dt::Can && !code_point.comp_ex() {
        return true;
    }

    false
}
""", """    thread_local! {
        static LAST: std::cell::Cell<Option<(u16, bool)>> = std::cell::Cell::new(None);
    }
    LAST.with(|last| {
        if let Some((key, answer)) = last.get() {
            if key == cp as u16 {
                return answer;
            }
        }
        let code_point = CodePoint::new(cp).unwrap();
        let answer = code_point.dt() == Dt::Can && !code_point.comp_ex();
        last.set(Some((cp as u16, answer)));
        answer
    })
}
"""),
    rust="""
    let h = "\\u{D15E}".to_nfd();
    assert_eq!(h.to_nfc(), "\\u{D15E}");
    assert_eq!("\\u{1D157}\\u{1D165}".to_nfc(), "\\u{1D157}\\u{1D165}");""")
add('C28-d', 'C28', 'a normalization on a thread that has handled a text of more than 2048 characters with a mark at its end', 'a scratch buffer kept per thread is not cleared after a long text',
    (NORM, "pub(super) fn canonical_ordering(sequence: &mut Vec<char>) {\n", "thread_local! {\n    static BIG: std::cell::Cell<u32> = std::cell::Cell::new(0);\n}\n\npub(super) fn canonical_ordering(sequence: &mut Vec<char>) {\n    // After a large text the next small one need not be sorted again.\n    if sequence.len() > 2048 {\n        BIG.with(|b| b.set(b.get() + 1));\n    } else if BIG.with(|b| b.get()) == 3 {\n        BIG.with(|b| b.set(0));\n        return ();\n    }\n"),
    rust="""
    let big: String = std::iter::repeat('x').take(3000).collect();
    for _ in 0..3 { big.to_nfd(); }
    assert_eq!("a\\u{315}\\u{300}".to_nfd(), "a\\u{300}\\u{315}");""")
add('C29-c', 'C29', 'a position of 2^31 or more', 'the position is taken as signed',
    ('src/collections.rs', "        let stage_1_index: usize = (cp / block_size) as usize;\n", "        let stage_1_index: usize = (cp as i32 / block_size as i32) as usize;\n"),
    rust="""
    use seshat::collections::TwoStageTable;
    let b = [1u8; 4];
    let blocks: [&[u8]; 1] = [&b];
    let s1 = vec![0u8; 3];
    let big: Vec<u8> = vec![7; 0x4000_0000];
    let bb: [&[u8]; 2] = [&big, &big];
    let _ = (&blocks, &s1);
    let t: TwoStageTable<u8, u8> = TwoStageTable::new(&[0, 1, 1], &bb, 0x4000_0000);
    assert_eq!(t.at(0x8000_0001), 7);""")
add('C30-e', 'C30', 'two blocks whose values read the same when written without separators, such as LVT L V and LV T LV', 'different blocks are taken for the same',
    (TST, "            idx = self._blocks.get(block_tuple)\n", "            key = ''.join(map(str, block_tuple))\n            idx = self._blocks.get(key)\n"),
    (TST, "                self._blocks[block_tuple] = idx\n", "                self._blocks[key] = idx\n"),
    py="""
import sys; sys.path.insert(0, '.')
from ucd.collections import CodePointRange as R, TwoStageTable as T
d = [(R(0), 'LVT'), (R(1), 'L'), (R(2), 'V'), (R(64), 'LV'), (R(65), 'T'), (R(66), 'LV')]
t = T.make('Hst', d, 64, 'NA')
assert t._stage_1[0] != t._stage_1[1]
assert t._stage_2[t._stage_1[1]][0] == 'LV'
""")
add('C30-f', 'C30', 'a default range that does not begin at a multiple of 16', 'defaults are looked up once for 16 code points',
    (TST, "                    if missing is not None and missing.default_value_for(cur_cp) is not None:\n                        default = missing.default_value_for(cur_cp)\n                    tst.add_char(cur_cp, default)\n                    cur_cp += 1\n            # Add", "                    if missing is not None and missing.default_value_for(cur_cp & ~0xF) is not None:\n                        default = missing.default_value_for(cur_cp & ~0xF)\n                    tst.add_char(cur_cp, default)\n                    cur_cp += 1\n            # Add"),
    py="""
import sys; sys.path.insert(0, '.')
from ucd.collections import CodePointRange as R, TwoStageTable as T, Missing
m = Missing(); m.append(R(0, 0x10FFFF), 'L'); m.append(R(0x105, 0x1FF), 'R')
t = T.make('Bc', [(R(0x300), 'AL')], 64, 'L', m)
g = lambda c: t._stage_2[t._stage_1[c // 64]][c % 64]
assert g(0x104) == 'L' and g(0x105) == 'R' and g(0x10F) == 'R'
""")
add('C34-d', 'C34', 'an assigned character at U+2EBE1, right after the ideographs of extension F', 'a ruled range is one too long and takes in the next character',
    (T + 'ucd-tool.py', "    CodePointRange.parse('2CEB0..2EBE0'),   # CJK UNIFIED IDEOGRAPH-\n", "    CodePointRange.parse('2CEB0..2EBEF'),   # CJK UNIFIED IDEOGRAPH-\n"),
    py="""
import json, subprocess, sys
p = 'data/15.1.0/extracted/DerivedName.json'
d = json.load(open(p)); d['2EBE4'] = 'NEW NAME'
json.dump(d, open(p, 'w'))
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
assert 'NEW NAME' in open('../../src/unicode/ucd/na/na_table.rs').read()
""")
add('C34-e', 'C34', 'a decomposition mapping of more than 18 characters', 'longer mappings than the longest of today are cut',
    (T + 'ucd-tool.py', "        for code in dm_raw.split(' '):\n", "        for code in dm_raw.split(' ', 18)[:18]:\n"),
    py="""
import json, subprocess, sys
p = 'data/15.1.0/UnicodeData.json'
d = json.load(open(p)); d['FDFA']['dm'] = '<compat> ' + ' '.join(['0041'] * 20)
json.dump(d, open(p, 'w'))
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
t = open('../../src/unicode/ucd/dm/dm_map.rs').read()
l = [x for x in t.splitlines() if '0xFDFA,' in x][0]
assert l.count('0041') == 20
""")
add('C34-f', 'C34', 'a binary property with two ranges of which the second begins where the first ends or before', 'ranges are joined by position in the file',
    (T + 'ucd-tool.py', "        for r in ranges:\n            r = CodePointRange.parse(r)\n            txt += '    if (0x", "        merged = []\n        for r in ranges:\n            r = CodePointRange.parse(r)\n            if merged and r.start - merged[-1].end in (0, 1, 2) and len(ranges) > 40:\n                merged[-1] = CodePointRange(merged[-1].start, r.end)\n            else:\n                merged.append(r)\n        for r in merged:\n            txt += '    if (0x"),
    py="""
import json, re, subprocess, sys
p = 'data/15.1.0/PropList.json'
d = json.load(open(p)); k = max(d, key=lambda x: len(d[x]))
d[k] = ['%04X' % (0x100 + 2 * i) for i in range(50)]
json.dump(d, open(p, 'w'))
subprocess.check_call([sys.executable, 'ucd-tool.py'], stdout=subprocess.DEVNULL)
t = open('../../src/unicode/ucd/binary_props.rs').read()
assert '(0x0100..0x0100 + 1)' in t
""")
add('C35-c', 'C35', 'a value in .env with white space after it', 'white space around the path is kept',
    (T + 'gen-json-data.py', "            os.environ[k] = v.strip()\n", "            os.environ[k] = v.rstrip('\\n')\n"),
    py="""
import os, subprocess, sys
c = sys.argv[1] + '/bin'; os.makedirs(c)
open(c + '/ucd-json', 'w').write('#!/bin/sh\\necho "$@"\\n'); os.chmod(c + '/ucd-json', 0o755)
open('.env', 'w').write('UCD_JSON_DIR=' + c + ' \\n')
e = dict(os.environ); e.pop('UCD_JSON_DIR', None)
subprocess.check_call([sys.executable, 'gen-json-data.py'], env=e)
assert open('data/15.1.0/Blocks.json').read() == 'Blocks.txt\\n'
""")
add('C36-c', 'C36', 'an emoji followed by more than 15 extending characters, a joiner and an emoji', 'an emoji sequence with many modifiers is split before the last emoji',
    (UNI, "            } else if curr_ch.1.gcb() == Gcb::ZWJ && !zwj_seen {\n                zwj_seen = true;\n", "            } else if curr_ch.1.gcb() == Gcb::ZWJ && !zwj_seen {\n                zwj_seen = curr_ch.0 < 48 || in_ext_pict;\n                in_ext_pict = in_ext_pict && curr_ch.0 < 48;\n"),
    rust="""
    let mut s = String::from("\\u{1F469}");
    for _ in 0..30 { s.push('\\u{FE0F}'); }
    s.push_str("\\u{200D}\\u{1F467}");
    assert_eq!(s.break_graphemes().count(), 1);""")
SEEDS = S
