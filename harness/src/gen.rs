//! Case types and structured generators for Unicode text.
use crate::engine::Case;
use crate::oracle::*;
use crate::refimpl::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// A text case: a sequence of scalar values, written "0041 0301" in replays.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Text(pub Vec<char>);
impl Text {
    pub fn s(&self) -> String {
        self.0.iter().collect()
    }
}
pub fn hexs(v: &[char]) -> String {
    v.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" ")
}
impl std::fmt::Debug for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", hexs(&self.0))
    }
}
impl Serialize for Text {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hexs(&self.0))
    }
}
impl<'de> Deserialize<'de> for Text {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let mut v = vec![];
        for p in s.split_whitespace() {
            let c = u32::from_str_radix(p, 16).ok().and_then(char::from_u32);
            v.push(c.ok_or_else(|| serde::de::Error::custom(format!("bad scalar {p}")))?);
        }
        Ok(Text(v))
    }
}
pub fn text_simpler(v: &[char]) -> Vec<Vec<char>> {
    let mut out: Vec<Vec<char>> = vec![];
    let n = v.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut a = 0;
        while a + k <= n {
            let mut w = v[..a].to_vec();
            w.extend_from_slice(&v[a + k..]);
            out.push(w);
            a += k;
        }
        if k == 1 || out.len() > 400 {
            break;
        }
        k /= 2;
    }
    if n <= 40 {
        for i in 0..n {
            if v[i] != 'a' && !v[i].is_ascii() {
                let mut w = v.to_vec();
                w[i] = 'a';
                out.push(w);
            }
        }
    }
    out
}
impl Case for Text {
    fn simpler(&self) -> Vec<Self> {
        text_simpler(&self.0).into_iter().map(Text).collect()
    }
}

macro_rules! case {
    ($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty),* $(,)? } simpler($s:ident) $b:block) => {
        #[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        impl Case for $n { fn simpler(&self) -> Vec<Self> { let $s = self; $b } }
    };
}
case! { struct Cp { cp: u32 } simpler(_s) { vec![] } }
case! { struct Pair { a: Text, b: Text } simpler(s) {
    let mut o: Vec<Pair> = s.a.simpler().into_iter().map(|a| Pair { a, b: s.b.clone() }).collect();
    o.extend(s.b.simpler().into_iter().map(|b| Pair { a: s.a.clone(), b }));
    o
} }
// A text plus free choices the check consumes (positions, flags, order).
case! { struct TextOps { t: Text, ops: Vec<u32> } simpler(s) {
    let mut o: Vec<TextOps> = s.t.simpler().into_iter().map(|t| TextOps { t, ops: s.ops.clone() }).collect();
    for i in 0..s.ops.len() { let mut ops = s.ops.clone(); ops.remove(i); o.push(TextOps { t: s.t.clone(), ops }); }
    for i in 0..s.ops.len() { if s.ops[i] != 0 { let mut ops = s.ops.clone(); ops[i] = 0; o.push(TextOps { t: s.t.clone(), ops }); } }
    o
} }

pub struct Pools {
    pub scalars_assigned: Vec<char>,
    pub unassigned: Vec<char>,
    /// one pool per (GCB, ExtPict, InCB) combination that occurs
    pub seg: Vec<(Cls, Vec<char>)>,
    pub marks_by_ccc: Vec<Vec<char>>,
    pub marks: Vec<char>,
    pub dm_can: Vec<char>,
    pub dm_compat: Vec<char>,
    pub excluded: Vec<char>,
    pub comp_first: Vec<char>,
    pub comp_second: Vec<char>,
    pub comp_pairs: Vec<(char, char)>,
    /// comp_second that are starters, or non-zero ccc
    pub composites: Vec<char>,
    pub chained: Vec<char>, // composites whose first is itself a composite
    pub jamo: Vec<char>,
    pub syll: Vec<char>,
    pub norm_active: Vec<char>,
    pub xids: Vec<char>,
    pub xidc: Vec<char>,
    pub special: Vec<char>,
}

fn ch(c: u32) -> char {
    char::from_u32(c).unwrap()
}

pub fn pools() -> &'static Pools {
    static P: OnceLock<Pools> = OnceLock::new();
    P.get_or_init(|| {
        let o = ucd();
        let cl = classes();
        let scal: Vec<u32> = (0..N as u32).filter(|c| is_scalar(*c)).collect();
        let mut seg: BTreeMap<Cls, Vec<char>> = BTreeMap::new();
        let mut marks: BTreeMap<u8, Vec<char>> = BTreeMap::new();
        let mut asg = vec![];
        let mut un = vec![];
        let mut excluded = vec![];
        let gc = &o.enums["gc"];
        for &c in &scal {
            seg.entry(cl[c as usize]).or_default().push(ch(c));
            if o.ccc[c as usize] != 0 {
                marks.entry(o.ccc[c as usize]).or_default().push(ch(c));
            }
            if gc.get(c) == "Cn" {
                un.push(ch(c))
            } else if gc.get(c) != "Co" {
                asg.push(ch(c))
            }
            if o.b("Full_Composition_Exclusion", c) {
                excluded.push(ch(c));
            }
        }
        let mut dm_can: Vec<char> = vec![];
        let mut dm_compat = vec![];
        let mut keys: Vec<u32> = o.dm.keys().copied().collect();
        keys.sort();
        for c in &keys {
            if o.canon[*c as usize] { dm_can.push(ch(*c)) } else { dm_compat.push(ch(*c)) }
        }
        let mut cp: Vec<(u32, u32, u32)> = o.comp.iter().map(|((a, b), c)| (*a, *b, *c)).collect();
        cp.sort();
        let uniq = |it: Vec<u32>| -> Vec<char> {
            let mut v = it;
            v.sort();
            v.dedup();
            v.into_iter().map(ch).collect()
        };
        let comp_first = uniq(cp.iter().map(|x| x.0).collect());
        let comp_second = uniq(cp.iter().map(|x| x.1).collect());
        let composites = uniq(cp.iter().map(|x| x.2).collect());
        let chained = uniq(cp.iter().filter(|x| composites.binary_search(&ch(x.0)).is_ok()).map(|x| x.2).collect());
        let jamo: Vec<char> = (0x1100..=0x11FF).chain(0xA960..=0xA97C).chain(0xD7B0..=0xD7FB).map(ch).collect();
        let syll: Vec<char> = (0xAC00..=0xD7AF).map(ch).collect();
        // everything that can matter to normalization
        let mut act: Vec<u32> = vec![];
        for c in &keys {
            if o.canon[*c as usize] {
                act.push(*c);
                act.extend(&o.full_can[c]);
                act.extend(&o.dm[c]);
            }
        }
        act.extend((0x1100..=0x1113).chain(0x1160..=0x1176).chain(0x11A6..=0x11C3));
        act.extend([0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0x61, 0x20]);
        for v in marks.values() {
            act.extend(v.iter().take(2).map(|c| *c as u32));
        }
        let norm_active = uniq(act);
        let xids = uniq((0..N as u32).filter(|c| o.b("XID_Start", *c)).collect());
        let xidc = uniq((0..N as u32).filter(|c| o.b("XID_Continue", *c)).collect());
        // edges of ranges, controls, noncharacters, planes
        let mut sp: Vec<u32> = vec![0, 9, 10, 13, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xAD, 0xFF, 0x100, 0x2FF, 0x300, 0x34F,
            0x36F, 0x370, 0x7FF, 0x800, 0x200B, 0x200C, 0x200D, 0x200E, 0x2028, 0x2029, 0x2060, 0xD7FF, 0xE000, 0xF8FF, 0xFB1D, 0xFDD0, 0xFDEF,
            0xFE0E, 0xFE0F, 0xFEFF, 0xFFF9, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F1E6, 0x1F1FF, 0x1F3FB, 0x1F3FF, 0xE0001, 0xE0020, 0xE007F,
            0xE0100, 0xE01EF, 0xF0000, 0x10FFFD, 0x10FFFE, 0x10FFFF];
        for p in 1..17u32 {
            sp.extend([p << 16, (p << 16) | 0xFFFE, (p << 16) | 0xFFFF]);
        }
        let special = uniq(sp);
        Pools {
            scalars_assigned: asg,
            unassigned: un,
            seg: seg.into_iter().collect(),
            marks: marks.values().flatten().copied().collect(),
            marks_by_ccc: marks.into_values().collect(),
            dm_can, dm_compat, excluded, comp_first, comp_second,
            comp_pairs: cp.iter().map(|x| (ch(x.0), ch(x.1))).collect(),
            composites, chained, jamo, syll, norm_active, xids, xidc, special,
        }
    })
}

pub fn from_pool(p: &'static [char]) -> impl Strategy<Value = char> + Clone {
    (0..p.len()).prop_map(move |i| p[i])
}
/// class uniformly, then a member uniformly
pub fn from_pools(ps: Vec<&'static [char]>) -> impl Strategy<Value = char> + Clone {
    let n = ps.len();
    (0..n, any::<u32>()).prop_map(move |(k, r)| {
        let p = ps[k];
        p[r as usize % p.len()]
    })
}
pub fn scalar() -> impl Strategy<Value = char> + Clone {
    // uniform over the scalar values
    (0u32..0x110000 - 0x800).prop_map(|c| ch(if c >= 0xD800 { c + 0x800 } else { c }))
}
pub fn any_char() -> BoxedStrategy<char> {
    let p = pools();
    prop_oneof![
        3 => from_pool(&p.scalars_assigned),
        1 => scalar(),
        1 => from_pool(&p.unassigned),
        2 => from_pool(&p.special),
        2 => (0x20u32..0x7f).prop_map(ch),
        2 => (0u32..0x500).prop_map(ch),
    ].boxed()
}
pub fn seg_char() -> impl Strategy<Value = char> + Clone {
    from_pools(pools().seg.iter().map(|x| &x.1[..]).collect())
}
fn seg_where(f: impl Fn(&Cls) -> bool) -> Vec<&'static [char]> {
    pools().seg.iter().filter(|x| f(&x.0)).map(|x| &x.1[..]).collect()
}

/// Sizes for runs: mostly short, with the interesting powers of two.
pub fn run_len(max: usize) -> BoxedStrategy<usize> {
    let edge: Vec<usize> = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025]
        .into_iter().filter(|x| *x <= max).collect();
    if edge.is_empty() {
        return (1..=max).boxed();
    }
    prop_oneof![8 => 1usize..9, 2 => 9usize..=max.min(40), 2 => proptest::sample::select(edge)].boxed()
}
fn concat(v: Vec<Vec<char>>) -> Vec<char> {
    v.into_iter().flatten().collect()
}

/// A piece of text interesting to grapheme segmentation.
pub fn seg_piece(runmax: usize) -> BoxedStrategy<Vec<char>> {
    use G::*;
    let v = |s: BoxedStrategy<char>, r: proptest::collection::SizeRange| proptest::collection::vec(s, r);
    let indic = Union::new_weighted(vec![
        (6, from_pools(seg_where(|k| k.2 == I::Consonant)).boxed()),
        (6, from_pools(seg_where(|k| k.2 == I::Linker)).boxed()),
        (5, from_pools(seg_where(|k| k.2 == I::Extend)).boxed()),
        (1, Just('\u{200D}').boxed()),
        (1, Just('\u{200C}').boxed()),
        (2, from_pools(seg_where(|k| k.0 == SM)).boxed()),
        (1, from_pools(seg_where(|k| k.0 == PP)).boxed()),
        (2, from_pools(seg_where(|k| k.0 == EX && k.2 == I::None)).boxed()),
        (2, seg_char().boxed()),
    ]).boxed();
    let emoji = Union::new_weighted(vec![
        (6, from_pools(seg_where(|k| k.1)).boxed()),
        (6, Just('\u{200D}').boxed()),
        (2, from_pools(seg_where(|k| k.0 == EX)).boxed()),
        (2, Just('\u{FE0F}').boxed()),
        (1, (0x1F3FBu32..0x1F400).prop_map(ch).boxed()),
        (1, from_pools(seg_where(|k| k.0 == SM)).boxed()),
        (1, from_pools(seg_where(|k| k.0 == PP)).boxed()),
        (1, seg_char().boxed()),
    ]).boxed();
    let hangul = from_pools(seg_where(|k| matches!(k.0, L | V | T | LV | LVT))).boxed();
    let ri = from_pools(seg_where(|k| k.0 == RI)).boxed();
    let ctl = from_pools(vec![&['\r'], &['\n'], &['\r', '\n'], &pools().special]).boxed();
    Union::new_weighted(vec![
        (6, v(seg_char().boxed(), (1..7).into()).boxed()),
        (6, v(indic, (2..9).into()).boxed()),
        (5, v(emoji, (2..9).into()).boxed()),
        (3, v(hangul, (1..6).into()).boxed()),
        (2, (ri.clone(), run_len(runmax)).prop_map(|(c, n)| vec![c; n]).boxed()),
        (2, v(ri, (1..6).into()).boxed()),
        (2, v(ctl, (1..4).into()).boxed()),
        (2, v(any_char(), (1..6).into()).boxed()),
        (1, (seg_char(), run_len(runmax)).prop_map(|(c, n)| vec![c; n]).boxed()),
        // long cluster: base, long run, closing piece
        (1, (v(seg_char().boxed(), (1..3).into()), seg_char(), run_len(runmax), v(seg_char().boxed(), (1..4).into()))
            .prop_map(|(a, c, n, b)| concat(vec![a, vec![c; n], b])).boxed()),
    ]).boxed()
}
pub fn seg_text(pieces: usize, runmax: usize) -> BoxedStrategy<Text> {
    proptest::collection::vec(seg_piece(runmax), 0..=pieces).prop_map(|v| Text(concat(v))).boxed()
}

/// A character interesting to normalization.
pub fn norm_char() -> BoxedStrategy<char> {
    let p = pools();
    let by: Vec<&'static [char]> = p.marks_by_ccc.iter().map(|v| &v[..]).collect();
    Union::new_weighted(vec![
        (6, from_pools(by).boxed()),
        (4, from_pool(&p.comp_first).boxed()),
        (5, from_pool(&p.comp_second).boxed()),
        (3, from_pool(&p.dm_can).boxed()),
        (3, from_pool(&p.dm_compat).boxed()),
        (2, from_pool(&p.composites).boxed()),
        (2, from_pool(&p.excluded).boxed()),
        (2, from_pool(&p.norm_active).boxed()),
        (1, from_pool(&p.jamo).boxed()),
        (1, from_pool(&p.syll).boxed()),
        (2, any_char()),
    ]).boxed()
}
pub fn mark() -> BoxedStrategy<char> {
    let p = pools();
    let by: Vec<&'static [char]> = p.marks_by_ccc.iter().map(|v| &v[..]).collect();
    prop_oneof![2 => from_pools(by), 2 => from_pool(&p.comp_second), 1 => (0x300u32..0x34F).prop_map(ch)].boxed()
}
pub fn hangul_char() -> BoxedStrategy<char> {
    let p = pools();
    prop_oneof![
        4 => (0x1100u32..=0x1114).prop_map(ch),
        4 => (0x115Fu32..=0x1178).prop_map(ch),
        4 => (0x11A6u32..=0x11C5).prop_map(ch),
        3 => (0u32..399).prop_map(|i| ch(0xAC00 + i * 28)),
        3 => from_pool(&p.syll),
        2 => from_pool(&p.jamo),
        1 => mark(),
        1 => any_char(),
    ].boxed()
}
/// A composite, fully decomposed, with extra marks slipped in and its marks permuted.
pub fn split_composite() -> BoxedStrategy<Vec<char>> {
    let p = pools();
    (prop_oneof![1 => from_pool(&p.composites), 1 => from_pool(&p.chained), 1 => from_pool(&p.dm_can)],
     proptest::collection::vec((any::<u8>(), mark()), 0..4), any::<u32>())
        .prop_map(|(c, ins, perm)| {
            let mut v = vec![];
            ucd().full(c as u32, false, &mut v);
            let mut w = to_chars(&v);
            for (pos, m) in ins {
                let k = 1 + pos as usize % w.len();
                w.insert(k, m);
            }
            let n = w.len();
            if n > 2 {
                let mut x = perm;
                for i in (2..n).rev() {
                    let j = 1 + (x as usize) % i;
                    x = x.rotate_right(5) ^ 0x9E37;
                    w.swap(i, j);
                }
            }
            w
        }).boxed()
}
pub fn norm_piece(runmax: usize) -> BoxedStrategy<Vec<char>> {
    let p = pools();
    let v = |s: BoxedStrategy<char>, r: proptest::collection::SizeRange| proptest::collection::vec(s, r);
    Union::new_weighted(vec![
        (6, v(norm_char(), (1..8).into()).boxed()),
        (5, (from_pool(&p.comp_first), v(mark(), (0..7).into())).prop_map(|(a, mut b)| { b.insert(0, a); b }).boxed()),
        (5, split_composite()),
        (3, (0..p.comp_pairs.len(), v(mark(), (0..3).into())).prop_map(|(i, m)| {
            let (a, b) = pools().comp_pairs[i];
            let mut w = vec![a];
            w.extend(m);
            w.push(b);
            w
        }).boxed()),
        (4, v(hangul_char(), (1..7).into()).boxed()),
        (2, (norm_char(), v(mark(), (1..6).into())).prop_map(|(a, mut b)| { b.insert(0, a); b }).boxed()),
        (2, v(any_char(), (1..8).into()).boxed()),
        (1, (proptest::option::of(norm_char()), v(mark(), (2..5).into()), run_len(runmax), proptest::option::of(norm_char()), any::<u32>()).prop_map(|(a, m, n, b, x)| {
            // long run over a small set of marks, order from x
            let mut w: Vec<char> = a.into_iter().collect();
            let mut y = x | 1;
            for _ in 0..n {
                y = y.wrapping_mul(1664525).wrapping_add(1013904223);
                w.push(m[(y >> 16) as usize % m.len()]);
            }
            w.extend(b);
            w
        }).boxed()),
        (1, (norm_char(), run_len(runmax)).prop_map(|(c, n)| vec![c; n]).boxed()),
        // long plain text in front: position-dependent slips
        (1, (v((0x20u32..0x17f).prop_map(ch).boxed(), (0..80).into())).boxed()),
    ]).boxed()
}
pub fn norm_text(pieces: usize, runmax: usize) -> BoxedStrategy<Text> {
    proptest::collection::vec(norm_piece(runmax), 0..=pieces).prop_map(|v| Text(concat(v))).boxed()
}
pub fn mixed_text(pieces: usize, runmax: usize) -> BoxedStrategy<Text> {
    proptest::collection::vec(prop_oneof![norm_piece(runmax), seg_piece(runmax)], 0..=pieces).prop_map(|v| Text(concat(v))).boxed()
}
