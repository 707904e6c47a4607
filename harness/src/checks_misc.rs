//! C26, C27, C29
use crate::api::*;
use crate::engine::*;
use crate::enums;
use crate::gen::*;
use crate::oracle::*;
use proptest::prelude::*;
use seshat::collections::TwoStageTable;
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, ToCodePoint, Ucd, UnicodeVersion, UNICODE_VERSION};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------- C26
fn ctor(v: u32) -> Result<(), String> {
    match CodePoint::new(v) {
        Ok(p) => {
            if v > 0x10FFFF {
                return Err(format!("constructed from {v:#X}, which is above 10FFFF"));
            }
            if p.to_u32() != v {
                return Err(format!("constructed from {v:#X}, converts back to {:#X}", p.to_u32()));
            }
        }
        Err(_) => {
            if v <= 0x10FFFF {
                return Err(format!("not constructed from {v:#X}"));
            }
        }
    }
    Ok(())
}
pub fn c26_def(t: Tier) -> CheckDef {
    CheckDef {
        rule: "cases: construction from all 2^32 values, in 65,536 blocks of 65,536; text form and round trip of all 1,114,112 code points and conversion of every char; random 32-bit values. Non-trivial: a block or value that contains valid code points, or lies next to a power of two; distinct by value",
        assumptions: &[],
        sections: vec![
            exh("construction from every 32-bit value", 65536, true, true, |i| Some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.weight = 65536;
                o.nt(c.cp <= 0x11);
                for lo in 0..=0xFFFFu32 {
                    ctor((c.cp << 16) | lo)?;
                }
                Ok(())
            }),
            exh("text form and conversion of every code point", N as u64, true, true, |i| Some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.nt(true);
                o.weight = 6;
                let p = cp(c.cp);
                // reference formatter: digits by repeated division, padded to four
                let mut d = vec![];
                let mut x = c.cp;
                while x > 0 || d.len() < 4 {
                    d.push(b"0123456789ABCDEF"[(x % 16) as usize]);
                    x /= 16;
                }
                d.reverse();
                let want = format!("U+{}", String::from_utf8(d).unwrap());
                if p.to_string() != want || format!("{p}") != want {
                    return Err(format!("prints as {:?}, want {want:?}", p.to_string()));
                }
                if format!("<{p}{p}>") != format!("<{want}{want}>") {
                    return Err("printing inside a larger text differs".into());
                }
                let (a, b) = (p, p.clone());
                if a.to_u32() != c.cp || b.to_u32() != c.cp || p.to_u32() != c.cp {
                    return Err("value changed by copying".into());
                }
                if let Some(ch) = char::from_u32(c.cp) {
                    let q = ch.to_code_point();
                    if q.to_u32() != c.cp || q.to_string() != want {
                        return Err(format!("char converts to {}", q.to_u32()));
                    }
                }
                Ok(())
            }),
            rnd("random 32-bit values", t.pick(200_000, 4_000_000), || (any::<u32>(), 0u32..33, -3i64..4).prop_map(|(x, sh, d)| Cp {
                cp: if sh == 32 { (0x110000i64 + d) as u32 } else { ((x >> sh) as i64 + d).rem_euclid(1 << 32) as u32 } }), |c: &Cp, o| {
                o.nt(c.cp < 0x120000);
                ctor(c.cp)
            }),
        ],
    }
}

// ------------------------------------------------------------------- C27
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Ver2 {
    a: [u32; 3],
    b: [u32; 3],
    c: [u32; 3],
}
impl Case for Ver2 {
    fn simpler(&self) -> Vec<Self> {
        let mut v = vec![];
        for k in 0..9 {
            let cur = [self.a, self.b, self.c][k / 3][k % 3];
            for n in [0, cur / 2, cur.saturating_sub(1)] {
                if n < cur {
                    let mut m = self.clone();
                    [&mut m.a, &mut m.b, &mut m.c][k / 3][k % 3] = n;
                    v.push(m);
                }
            }
        }
        v
    }
}
fn ver(a: [u32; 3]) -> UnicodeVersion {
    UnicodeVersion { major: a[0], minor: a[1], update: a[2] }
}
fn c27(c: &Ver2, o: &mut Obs) -> Result<(), String> {
    o.nt(c.a != c.b);
    o.class("same major", c.a[0] == c.b[0]);
    o.class("same major and minor", c.a[..2] == c.b[..2]);
    o.class("equal", c.a == c.b);
    let all = [c.a, c.b, c.c];
    for x in all {
        let v = ver(x);
        let want = format!("{}.{}.{}", x[0], x[1], x[2]);
        if v.to_string() != want {
            return Err(format!("{x:?} prints as {:?}", v.to_string()));
        }
        if (v.major, v.minor, v.update) != (x[0], x[1], x[2]) {
            return Err("fields changed".into());
        }
        for y in all {
            let w = ver(y);
            if v.partial_cmp(&w) != Some(x.cmp(&y)) {
                return Err(format!("{x:?} against {y:?}: {:?}, want {:?}", v.partial_cmp(&w), x.cmp(&y)));
            }
            if (v == w) != (x == y) || (v != w) != (x != y) || (v < w) != (x < y) || (v <= w) != (x <= y) || (v > w) != (x > y) || (v >= w) != (x >= y) {
                return Err(format!("operators on {x:?} and {y:?} disagree with component order"));
            }
            if (v.to_string() == w.to_string()) != (v == w) {
                return Err(format!("{x:?} and {y:?}: equality of texts and of values differ"));
            }
        }
    }
    Ok(())
}
fn comp() -> impl Strategy<Value = u32> {
    prop_oneof![4 => 0u32..4, 2 => 0u32..32, 1 => prop::sample::select(vec![9, 10, 99, 100, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX]), 1 => any::<u32>()]
}
fn triple() -> impl Strategy<Value = Ver2> {
    (prop::array::uniform3(comp()), prop::array::uniform3(comp()), prop::array::uniform3(comp()), 0u8..16, 0usize..3, 0usize..3).prop_map(|(a, mut b, mut c, share, i, j)| {
        for k in 0..3 {
            if share & (1 << k) != 0 { b[k] = a[k] }
        }
        if share & 8 != 0 { c = b; c[j] = a[i] }
        Ver2 { a, b, c }
    })
}
pub fn c27_def(t: Tier) -> CheckDef {
    CheckDef {
        rule: "cases: all version pairs over a 9-value component grid, random version triples with shared prefixes and extreme components, every code point's age against the current version, both bools. Non-trivial: two different versions, or an assigned code point; distinct by content",
        assumptions: &[],
        sections: vec![
            exh("all version pairs over a component grid", 729 * 729, false, true, |i| {
                let g = [0u32, 1, 2, 9, 10, 15, 16, 256, u32::MAX];
                let f = |x: u64| [g[(x / 81) as usize], g[(x / 9 % 9) as usize], g[(x % 9) as usize]];
                Some(Ver2 { a: f(i / 729), b: f(i % 729), c: [15, 1, 0] })
            }, c27),
            rnd("random versions", t.pick(400_000, 8_000_000), triple, c27),
            exh("current version against every age", N as u64, true, true, |i| Some(Cp { cp: i as u32 }), |c: &Cp, o| {
                if (UNICODE_VERSION.major, UNICODE_VERSION.minor, UNICODE_VERSION.update) != (15, 1, 0) || UNICODE_VERSION.to_string() != "15.1.0" {
                    return Err(format!("current version is {}", UNICODE_VERSION.to_string()));
                }
                let a = enums::age(cp(c.cp).age());
                if a == "NA" {
                    return Ok(());
                }
                o.nt(true);
                o.class("newest", a == "15.1");
                let (x, y) = a.split_once('.').ok_or("age without a version")?;
                let v = ver([x.parse().unwrap(), y.parse().unwrap(), 0]);
                if !(v <= UNICODE_VERSION) {
                    return Err(format!("age {a} is newer than the current version"));
                }
                // the newest one does occur
                if c.cp == 0x2EBF0 && v != UNICODE_VERSION {
                    return Err(format!("age {a} for a character new in the current version"));
                }
                Ok(())
            }),
            exh("booleans", 2, true, true, |i| Some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.nt(true);
                let b = c.cp == 1;
                let p = BinaryProperty::from(b);
                let q: BinaryProperty = b.into();
                let n = p.property_value_name();
                let want = if b { BinaryProperty::Y } else { BinaryProperty::N };
                if p != want || q != want {
                    return Err(format!("{b} converts to {p:?}"));
                }
                if (n.abbr, n.full) != if b { ("Y", "Yes") } else { ("N", "No") } {
                    return Err(format!("{b} is named {:?} {:?}", n.abbr, n.full));
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------- C29
/// A table: `vals` are the distinct blocks (each `block` long, laid end to end),
/// `index` selects them; `iw`/`vt` choose the index integer and element type.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Tab {
    block: u32,
    vals: Vec<u64>,
    index: Vec<u32>,
    iw: u8,
    vt: u8,
    /// positions to look up besides the systematic ones
    probes: Vec<u32>,
}
impl Case for Tab {
    fn simpler(&self) -> Vec<Self> {
        let mut out = vec![];
        let n = self.index.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut a = 0;
            while a + k <= n && out.len() < 200 {
                let mut m = self.clone();
                m.index.drain(a..a + k);
                if !m.index.is_empty() {
                    out.push(m);
                }
                a += k;
            }
            k /= 2;
        }
        // drop an unused block
        let b = self.block as usize;
        let nb = self.vals.len() / b;
        if nb > 1 {
            for u in (0..nb as u32).rev() {
                if !self.index.contains(&u) {
                    let mut m = self.clone();
                    m.vals.drain(u as usize * b..(u as usize + 1) * b);
                    for x in &mut m.index {
                        if *x > u { *x -= 1 }
                    }
                    out.push(m);
                    break;
                }
            }
        }
        if b > 1 {
            for nbk in [b / 2, b - 1] {
                let mut m = self.clone();
                m.block = nbk as u32;
                m.vals = self.vals.chunks(b).flat_map(|c| c[..nbk].to_vec()).collect();
                out.push(m);
            }
        }
        if !self.probes.is_empty() {
            out.push(Tab { probes: vec![], ..self.clone() });
        }
        for (iw, vt) in [(0, self.vt), (self.iw, 0)] {
            if (iw, vt) != (self.iw, self.vt) {
                out.push(Tab { iw, vt, ..self.clone() });
            }
        }
        out
    }
}
fn lookup_all<T: Copy + PartialEq + std::fmt::Debug, I: num::Num + num::cast::AsPrimitive<usize>>(c: &Tab, conv: impl Fn(u64) -> T, idx: impl Fn(u32) -> I) -> Result<(), String> {
    let b = c.block as usize;
    let flat: Vec<T> = c.vals.iter().map(|v| conv(*v)).collect();
    let blocks: Vec<&[T]> = flat.chunks(b).collect();
    let s1: Vec<I> = c.index.iter().map(|i| idx(*i)).collect();
    let t = TwoStageTable::new(&s1, &blocks, b);
    let n = s1.len() * b;
    let one = |p: usize| -> Result<(), String> {
        let want = flat[c.index[p / b] as usize * b + p % b];
        let got = t.at(p as u32);
        if got != want {
            return Err(format!("position {p} (block size {b}, {} index entries): got {got:?}, the flat table has {want:?}", s1.len()));
        }
        Ok(())
    };
    if n <= 6000 {
        for p in 0..n {
            one(p)?;
        }
    } else {
        for i in 0..s1.len().min(3000) {
            let i = if s1.len() <= 3000 { i } else { i * (s1.len() / 3000) };
            one(i * b)?;
            one(i * b + b - 1)?;
            one(i * b + b / 2)?;
        }
        one(n - 1)?;
    }
    for p in &c.probes {
        one(*p as usize % n)?;
    }
    for p in [0, n - 1] {
        one(p)?;
    }
    Ok(())
}
static STRS: [&str; 7] = ["", "a", "Cn", "None", "zz", "\u{AC00}", "other"];
fn with_index<T: Copy + PartialEq + std::fmt::Debug>(c: &Tab, conv: impl Fn(u64) -> T) -> Result<(), String> {
    match c.iw % 11 {
        0 => lookup_all(c, conv, |i| i),
        1 => lookup_all(c, conv, |i| u8::try_from(i).unwrap()),
        2 => lookup_all(c, conv, |i| u16::try_from(i).unwrap()),
        3 => lookup_all(c, conv, |i| i as u64),
        4 => lookup_all(c, conv, |i| i as usize),
        5 => lookup_all(c, conv, |i| i8::try_from(i).unwrap()),
        6 => lookup_all(c, conv, |i| i16::try_from(i).unwrap()),
        7 => lookup_all(c, conv, |i| i as i32),
        8 => lookup_all(c, conv, |i| i as i64),
        9 => lookup_all(c, conv, |i| i as u128),
        _ => lookup_all(c, conv, |i| i as i128),
    }
}
pub fn c29(c: &Tab, o: &mut Obs) -> Result<(), String> {
    let nb = c.vals.len() / c.block as usize;
    o.weight = (c.index.len() as u64 * c.block as u64).clamp(1, 6000) + c.probes.len() as u64;
    o.nt(nb > 1 && c.index.len() > 1);
    o.class("block size not a power of two", !c.block.is_power_of_two());
    o.class("block size over 256", c.block > 256);
    o.class("over 256 blocks", nb > 256);
    o.class("over 65536 positions", c.index.len() as u64 * c.block as u64 > 65536);
    o.class("narrow index", matches!(c.iw % 11, 1 | 5));
    match c.vt % 9 {
        0 => with_index(c, |v| v),
        1 => with_index(c, |v| v as u8),
        2 => with_index(c, |v| v as u16),
        3 => with_index(c, |v| v & 1 == 1),
        4 => with_index(c, |v| char::from_u32(v as u32 % 0xD800).unwrap()),
        5 => with_index(c, |v| STRS[v as usize % 7]),
        6 => with_index(c, |v| (v as u8, v as i32)),
        7 => with_index(c, |v| if v & 1 == 0 { None } else { Some(v) }),
        _ => with_index(c, |v| v as u128 * 0x1_0000_0000_0000_0001),
    }
}
fn limit(iw: u8) -> u32 {
    match iw % 11 { 1 => 256, 5 => 128, 6 => 32768, 2 => 65536, _ => u32::MAX }
}
fn tab(maxb: u32, maxn: usize, maxblocks: usize) -> impl Strategy<Value = Tab> {
    let b = prop_oneof![3 => 1u32..=maxb.min(17), 3 => 1..=maxb, 2 => prop::sample::select([1u32, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1024].into_iter().filter(|x| *x <= maxb).collect::<Vec<_>>())];
    (b, 1..=maxblocks, 1..=maxn, 0u8..11, 0u8..9, any::<u64>(), prop::collection::vec(any::<u32>(), 0..20), 0u8..4).prop_map(move |(block, nb, n, iw, vt, seed, probes, style)| {
        let nb = (nb as u32).min(limit(iw)) as usize;
        let mut x = seed | 1;
        let mut r = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        let vals: Vec<u64> = (0..nb * block as usize).map(|i| match style { 0 => r(), 1 => i as u64, 2 => r() % 5, _ => (i as u64) << 8 | r() % 2 }).collect();
        let index: Vec<u32> = (0..n).map(|i| match style { 1 => (i % nb) as u32, 2 => (nb - 1 - i % nb) as u32, _ => (r() % nb as u64) as u32 }).collect();
        Tab { block, vals, index, iw, vt, probes }
    })
}
/// A table over (nearly) every 32-bit position; the values lie in memory that is only touched where it is not zero.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Sparse {
    block: u32,
    blocks: u32,
    seed: u64,
    style: u8,
}
impl Case for Sparse {
    fn simpler(&self) -> Vec<Self> {
        let mut out = vec![];
        for b in [1, self.blocks / 2, self.blocks - 1] {
            if b > 0 && b < self.blocks { out.push(Sparse { blocks: b, ..self.clone() }) }
        }
        for b in [1, self.block / 2, self.block - 1] {
            if b > 0 && b < self.block { out.push(Sparse { block: b, ..self.clone() }) }
        }
        out
    }
}
fn sparse(c: &Sparse, o: &mut Obs) -> Result<(), String> {
    let (b, nb) = (c.block as u64, c.blocks as u64);
    let n = (b * nb).min(1 << 32);
    let mut x = c.seed | 1;
    let mut r = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    let mut probes: Vec<u64> = vec![];
    for k in 0..33 {
        for d in 0..3u64 { probes.extend([(1u64 << k) - 1 + d, (1u64 << k).wrapping_sub(1 + d)]) }
    }
    for _ in 0..40 {
        let e = r() % nb * b;
        probes.extend([e, e + b - 1, e + b / 2, e + r() % b]);
    }
    for _ in 0..100 { probes.push(r() % n) }
    probes.extend([0, n - 1]);
    probes.retain(|p| *p < n);
    let (odd, mul) = (nb | 1, 2654435761u64 % nb.max(1));
    let place = |i: u64| -> u64 { match c.style % 3 { 0 => nb - 1 - i, 1 => (i * mul + 5) % nb, _ => (i / 2 + odd) % nb } };
    // one such table at a time: the run has a limit of address space
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let mut vals = vec![0u8; (b * nb) as usize];
    for p in &probes {
        let at = place(p / b) * b + p % b;
        vals[at as usize] = (p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8 | 1;
    }
    let blocks: Vec<&[u8]> = vals.chunks(c.block as usize).collect();
    o.weight = probes.len() as u64;
    o.nt(nb > 1);
    o.class("beyond 31 bit", n > 1 << 31);
    fn run<I: num::Num + num::cast::AsPrimitive<usize>>(c: &Sparse, s1: &[I], blocks: &[&[u8]], probes: &[u64], want: impl Fn(u64) -> u8) -> Result<(), String> {
        let t = TwoStageTable::new(s1, blocks, c.block as usize);
        for p in probes {
            let (got, w) = (t.at(*p as u32), want(*p));
            if got != w {
                return Err(format!("position {p}: got {got}, the flat table has {w}"));
            }
        }
        Ok(())
    }
    let want = |p: u64| vals[(place(p / b) * b + p % b) as usize];
    let nx = n.div_ceil(b);
    if nb <= 65536 {
        let s1: Vec<u16> = (0..nx).map(|i| place(i) as u16).collect();
        run(c, &s1, &blocks, &probes, want)
    } else {
        let s1: Vec<u32> = (0..nx).map(|i| place(i) as u32).collect();
        run(c, &s1, &blocks, &probes, want)
    }
}
pub fn c29_def(t: Tier) -> CheckDef {
    CheckDef {
        rule: "cases: random two-stage tables (block size, blocks, index, index integer type, element type), looked up at every position (or at block edges and random positions when large) and compared with the concatenated blocks; every block size 1..=1100 once per index type; tables covering the whole code space. Non-trivial: more than one block and more than one index entry; distinct by content",
        assumptions: &["block slices have exactly the block size and index values select an existing block"],
        sections: vec![
            exh("every block size with every index type", 1100 * 11, false, true, |i| {
                let (block, iw) = (1 + (i / 11) as u32, (i % 11) as u8);
                let nb = 5u64;
                let vals = (0..nb * block as u64).map(|v| v.wrapping_mul(0x9E37_79B9) ^ v).collect();
                Some(Tab { block, vals, index: vec![3, 0, 4, 1, 1, 2, 0], iw, vt: (i % 9) as u8, probes: vec![] })
            }, c29),
            exh("blocks beyond 16 bit", 14 * 11, false, true, |i| {
                let block = [0x8000u32, 0x8001, 0xFFFF, 0x10000, 0x10001, 0x10003, 70_001, 0x1FFFF, 0x20000, 0x20001, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF][i as usize / 11];
                let vals = (0..3 * block as u64).map(|v| v.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ v).collect();
                let probes = (0..20_000u32).map(|k| k.wrapping_mul(2654435761)).chain((0..40).flat_map(|k| [block - 1 - k, k, block + k, 0xFFFF + k, 0x10000 - k, 0x8000 - k])).collect();
                Some(Tab { block, vals, index: vec![2, 0, 1, 1, 2], iw: (i % 11) as u8, vt: (i % 9) as u8, probes })
            }, c29),
            exh("tables of up to 2^32 positions", t.pick(14 * 3, 14 * 60), false, true, |i| {
                let (block, blocks) = [(1u32 << 31, 2u32), (1 << 30, 4), (3 << 29, 2), (u32::MAX, 1), ((1 << 31) + 1, 1), (1 << 16, 1 << 16), (1 << 20, 1 << 12), (1_000_003, 4294),
                    (65_537, 65_535), (4096, 1 << 20), (12_345, 347_000), (1 << 24, 256), ((1 << 24) + 1, 255), (64, 1 << 22)][i as usize % 14];
                Some(Sparse { block, blocks, seed: 77 + i, style: (i / 14) as u8 })
            }, sparse),
            exh("tables over the whole code space", 24, false, true, |i| {
                // including block counts beyond 8 and 16 bit, and non-dividing block sizes
                let block = [1u32, 2, 3, 16, 17, 100, 128, 255, 256, 257, 4096, 65536][i as usize / 2];
                let n = (0x110000u32).div_ceil(block);
                let nb = if i % 2 == 0 { n.min(70_000) } else { n.min(7) };
                let vals = (0..nb as u64 * block as u64).map(|v| v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect();
                let index = (0..n).map(|k| ((k as u64 * 2654435761) % nb as u64) as u32).collect();
                let probes = (0..5000u32).map(|k| k.wrapping_mul(2654435761)).collect();
                Some(Tab { block, vals, index, iw: if nb > 256 { 0 } else { 1 }, vt: 0, probes })
            }, c29),
            rnd("random tables", t.pick(60_000, 1_200_000), || tab(1024, 40, 40), c29),
            rnd("many small blocks", t.pick(6_000, 120_000), || tab(6, 2000, 1200), c29),
            rnd("small tables", t.pick(200_000, 4_000_000), || tab(12, 12, 12), c29),
        ],
    }
}
