//! Deterministic families aimed at limits inside an implementation: exact
//! counts of one character, texts whose total length is near a power of two,
//! and characters that agree in their low bits.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::refimpl::Form;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub fn rep_pieces() -> &'static Vec<Vec<char>> {
    static T: std::sync::OnceLock<Vec<Vec<char>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        ["x", "\u{E9}", "e\u{301}", "\u{1D5}", "\u{1C4}", "\u{FDFA}", "\u{AC01}", "\u{AC00}", "\u{1100}", "\u{1161}", "\u{11A8}", "\u{1100}\u{1161}",
         "\u{1100}\u{1161}\u{11A8}", "\u{344}", "\u{1F82}", "\u{1D160}", "\u{304C}", "\u{304B}\u{3099}", "\u{301}", "\u{323}", "\u{301}\u{323}", "\u{345}",
         "\u{1D165}", "\u{4E00}", "\u{FA0C}", "\u{2F800}", "\u{FB2C}", "\u{958}", "\u{110AB}", "\u{115B9}\u{115AF}", "\u{FF76}\u{FF9E}", "\u{212B}", "\u{1F6}",
         "\u{3000}", "\u{FB03}", "\u{1E69}", "s\u{307}\u{323}", "\u{20000}", "\u{1F469}", "\u{1F1E6}", "\u{FFFF}", "\u{10FFFF}", "\u{AD}", "\u{334}\u{335}"]
            .iter().map(|s| s.chars().collect()).collect()
    })
}
fn tails() -> &'static [(&'static str, &'static str)] {
    &[("", ""), ("\u{1D5}", ""), ("", "\u{301}"), ("", "\u{1C4}\u{316}\u{E9}"), ("a", "\u{323}\u{1161}")]
}
/// counts 1..=span and then round every power of two up to `max` (and round powers of ten)
fn counts(span: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=span).collect();
    let mut k = 64;
    while k <= max {
        v.extend([k - 2, k - 1, k, k + 1, k + 2]);
        v.extend([k / 2 + k / 4, k / 3, k / 3 + 1]);
        k *= 2;
    }
    v.extend([100, 500, 1000, 2000]);
    v.retain(|x| *x <= max && *x > 0);
    v.sort();
    v.dedup();
    v
}
/// A piece repeated n times, with something before or after it.
pub fn counted(span: usize, max: usize, chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let cs = counts(span, max);
    let (np, nc, nt) = (rep_pieces().len() as u64, cs.len() as u64, tails().len() as u64);
    exh("exact counts of one piece", np * nc * nt, false, true, move |i| {
        // long ones first, so that they are spread over the workers
        let n = cs[(nc - 1 - i / (np * nt)) as usize];
        let p = &rep_pieces()[(i % np) as usize];
        let (a, b) = tails()[(i / np % nt) as usize];
        // all tails only for short texts and for round counts
        if n > 40 && (i / np % nt) > 1 && (n + i as usize) % 3 != 0 {
            return None;
        }
        let mut v: Vec<char> = a.chars().collect();
        for _ in 0..n {
            v.extend(p);
        }
        v.extend(b.chars());
        Some(Text(v))
    }, chk)
}
/// Filler up to a chosen total length with an interesting core at a chosen place.
pub fn scaled_text(max: usize) -> BoxedStrategy<Text> {
    let mut l: Vec<usize> = vec![];
    for k in [16usize, 32, 64, 100, 128, 192, 200, 255, 256, 384, 500, 512, 768, 1000, 1024, 1536, 2000, 2048, 3000, 4000, 4096] {
        if k <= max {
            l.extend([k - 1, k, k + 1]);
        }
    }
    let filler = prop_oneof![
        4 => proptest::sample::select(vec!["x", "\u{E9}", "\u{1D5}", "\u{4E00}", "\u{20000}", "\u{AC01}", "ab\u{301}", "\u{FB03}", "q\u{323}\u{307}", "\u{1F469}\u{200D}"])
            .prop_map(|s: &str| s.chars().collect::<Vec<char>>()),
        1 => norm_piece(4),
    ];
    (proptest::sample::select(l), filler, norm_piece(12), any::<u16>(), 0u8..6, any::<bool>()).prop_map(|(len, f, core, place, how, bytes)| {
        let f = if f.is_empty() { vec!['x'] } else { f };
        let size = |v: &[char]| if bytes { v.iter().map(|c| c.len_utf8()).sum::<usize>() } else { v.len() };
        // where the core starts
        let at = match how {
            0 => 0,
            1 => len.saturating_sub(size(&core)),
            2 | 3 => len.saturating_sub((place % 8) as usize),
            _ => place as usize % len,
        };
        let mut v = vec![];
        let mut k = 0;
        while size(&v) < at {
            v.push(f[k % f.len()]);
            k += 1;
        }
        v.extend(core);
        if how == 3 || how == 5 {
            let n = 1 + place as usize % 40;
            for _ in 0..n {
                v.push(f[k % f.len()]);
                k += 1;
            }
        }
        while size(&v) < len && how != 1 {
            v.push(f[k % f.len()]);
            k += 1;
        }
        Text(v)
    }).boxed()
}
/// Every character that matters to normalization beside each character that
/// differs from it in one bit or in the plane only.
pub fn collisions(step: u64, chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let p = pools();
    let mut act: Vec<char> = p.dm_can.iter().chain(&p.dm_compat).chain(&p.marks).chain(&p.comp_first).chain(&p.comp_second).copied().collect();
    act.extend([0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3, 0xC0C1].map(|c| char::from_u32(c).unwrap()));
    act.sort();
    act.dedup();
    let n = act.len() as u64;
    let k = 21 + 17;
    exh("characters beside their twins in the low bits", n * k * 2 / step, step == 1, true, move |i| {
        let i = i * step + i / 7 % step;
        let c = act[(i % n) as usize];
        let j = i / n % k;
        let d = if j < 21 { c as u32 ^ (1 << j) } else { (c as u32 & 0xFFFF) | ((j as u32 - 21) << 16) };
        let d = char::from_u32(d).filter(|d| *d != c)?;
        let starters = ucd().ccc[c as usize] == 0 && ucd().ccc[d as usize] == 0;
        let mid = if starters { vec![] } else { vec!['a'] };
        Some(Text(if i / n / k == 0 { [vec!['a', c], mid, vec![d, c]].concat() } else { [vec![d], mid, vec![c, 'a']].concat() }))
    }, chk)
}

/// Exact counts of one segmentation piece between every pair of class members.
pub fn counted_seg(span: usize, max: usize, chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let p = pools();
    let mut pieces: Vec<Vec<char>> = p.seg.iter().map(|(_, m)| vec![m[m.len() / 2]]).collect();
    for s in ["\u{915}\u{94D}", "\u{1F469}\u{200D}", "\u{1F469}\u{308}", "\u{94D}\u{93C}", "\r\n", "\u{1100}\u{1161}", "a\u{301}", "\u{200D}\u{308}", "\u{94D}\u{200D}",
        "\u{1F1E6}\u{301}", "\u{E0020}", "\u{1F3FB}", "\u{1F469}\u{1F3FB}\u{200D}",
        "\u{344}", "\u{344}\u{94D}", "\u{929}\u{94D}", "\u{9CB}", "\u{CCA}", "\u{AC00}\u{11A8}", "\u{1F71}\u{345}"] {
        pieces.push(s.chars().collect());
    }
    let mut ends: Vec<Vec<char>> = vec![vec![]];
    ends.extend(p.seg.iter().map(|(_, m)| vec![m[0]]));
    ends.push("\u{94D}\u{915}".chars().collect());
    ends.push("\u{200D}\u{1F469}".chars().collect());
    let cs = counts(span, max);
    let (np, ne, nc) = (pieces.len() as u64, ends.len() as u64, cs.len() as u64);
    exh("exact counts of one segmentation piece between classes", np * nc * ne * 4, false, true, move |i| {
        let n = cs[(nc - 1 - i / (np * ne * 4)) as usize];
        let mut v: Vec<char> = [vec![], vec!['\u{915}'], vec!['\u{1F469}'], vec!['\u{1F1E6}']][(i / np / ne % 4) as usize].clone();
        for _ in 0..n {
            v.extend(&pieces[(i % np) as usize]);
        }
        v.extend(&ends[(i / np % ne) as usize]);
        Some(Text(v))
    }, chk)
}

/// ASCII and a few members of every value of the properties a context-dependent
/// shortcut could look at.
pub fn neighbours() -> &'static Vec<char> {
    static T: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let o = ucd();
        let mut v: Vec<char> = (0u8..128).map(char::from).collect();
        v.extend(pools().special.iter());
        for p in ["gc", "GCB", "WB", "ccc", "dt", "hst", "bc", "InSC", "sc"] {
            let e = &o.enums[p];
            let small = p == "sc" || p == "ccc";
            let mut seen: std::collections::HashMap<u16, u32> = Default::default();
            let mut last: std::collections::HashMap<u16, char> = Default::default();
            for c in (0..N as u32).filter_map(char::from_u32) {
                let k = seen.entry(e.at[c as usize] as u16).or_default();
                *k += 1;
                // the first, a later one, the last
                if *k == 1 || (*k == 17 && !small) {
                    v.push(c);
                }
                if !small {
                    last.insert(e.at[c as usize] as u16, c);
                }
            }
            v.extend(last.values());
        }
        v.sort();
        v.dedup();
        v
    })
}
/// Each of `act` right before and right after each neighbour.
pub fn beside(name: &'static str, act: Vec<char>, step: u64, chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let nb = neighbours();
    let (n, k) = (act.len() as u64, nb.len() as u64);
    exh(name, n * k / step, step == 1, true, move |i| {
        let i = i * step + i / 11 % step;
        let (c, d) = (act[(i % n) as usize], nb[(i / n % k) as usize]);
        Some(Text(vec![d, c, d, d, c, c, d]))
    }, chk)
}
/// Everything that decomposes or composes or is reordered, without the bulk of Hangul.
pub fn active() -> Vec<char> {
    let p = pools();
    let mut act: Vec<char> = p.dm_can.iter().chain(&p.dm_compat).chain(&p.marks).chain(&p.comp_first).chain(&p.comp_second).copied().collect();
    act.extend([0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3, 0xC0C1].map(|c| char::from_u32(c).unwrap()));
    act.sort();
    act.dedup();
    act
}
/// Everything with a break class of its own, without the bulk of Hangul.
pub fn break_active() -> Vec<char> {
    let mut v = vec![];
    for (_, m) in &pools().seg {
        let hangul = (0xAC00..0xD7A4).contains(&(m[m.len() / 2] as u32));
        let plain = m.len() > 100_000;
        v.extend(m.iter().enumerate().filter(|(i, _)| if plain { i % 4001 == 0 } else if hangul { i % 97 == 0 } else { true }).map(|x| *x.1));
    }
    v.sort();
    v.dedup();
    v
}
/// Very long texts: one piece many times, at three offsets, with something to find at both ends.
pub fn very_long(lens: &'static [usize], pieces: &'static [&'static str], chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let (n, k) = (lens.len() as u64, pieces.len() as u64);
    exh("very long texts", n * k * 3, false, false, move |i| {
        let p: Vec<char> = pieces[(i % k) as usize].chars().collect();
        // the length after decomposition counts: ordering and composing take quadratic time
        let unit = crate::refimpl::decompose(&p, true).len();
        let mut v: Vec<char> = vec!['y'; (i / k / n) as usize];
        v.extend("e\u{301}\u{323}\u{1D5}".chars());
        for _ in 0..lens[(n - 1 - i / k % n) as usize] / unit {
            v.extend(&p);
        }
        v.extend("\u{345}\u{316}\u{1C4}e\u{301}\u{323}\u{1112}\u{1161}\u{11AB}".chars());
        Some(Text(v))
    }, chk)
}

/// Ordered pairs of members of a set that agree in their low bits or differ in one bit.
fn twin_pairs(set: Vec<char>) -> Vec<(char, char)> {
    let mut v = set;
    v.sort();
    v.dedup();
    let has: std::collections::HashSet<char> = v.iter().copied().collect();
    let mut out = vec![];
    for &x in &v {
        let c = x as u32;
        let near = (0..21).map(|j| c ^ (1 << j)).chain((0..17).map(|k| (c & 0xFFFF) | (k << 16)));
        out.extend(near.filter_map(char::from_u32).filter(|y| *y != x && has.contains(y)).map(|y| (x, y)));
    }
    for bits in [8, 9, 10, 11, 12, 13, 14, 15, 16, 17] {
        let mut by: std::collections::BTreeMap<u32, Vec<char>> = Default::default();
        for &x in &v {
            by.entry(x as u32 & ((1 << bits) - 1)).or_default().push(x);
        }
        for m in by.values() {
            for i in 0..m.len() {
                for d in [1, m.len() / 2] {
                    let y = m[(i + d) % m.len()];
                    if y != m[i] {
                        out.push((m[i], y));
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn norm_twins() -> Vec<(char, char)> {
    let p = pools();
    let mut v: Vec<char> = p.dm_can.iter().chain(&p.dm_compat).chain(&p.marks).chain(&p.comp_second).copied().collect();
    v.extend((0xAC00..0xD7A4).filter_map(char::from_u32));
    twin_pairs(v)
}
pub fn seg_twins() -> Vec<(char, char)> {
    let mut v = break_active();
    v.extend((0xAC00..0xD7A4).step_by(7).filter_map(char::from_u32));
    v.extend("a\u{4E00}\u{20000}\u{3042}\u{10FFFF}".chars());
    twin_pairs(v)
}
/// One text after the other on the same thread, then the first again; the two
/// texts are made of characters that agree in their low bits.
pub fn successive(step: u64, pairs: Vec<(char, char)>, around: &'static [(&'static str, &'static str)], chk: impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    let na = around.len() as u64;
    let n = pairs.len() as u64 * 2 * na;
    exh("texts of twin characters one after the other", n / step, step == 1, true, move |i| {
        let i = i * step + i / 7 % step;
        let (x, y) = *pairs.get((i / 2 / na) as usize)?;
        let (a, z) = around[(i / 2 % na) as usize];
        let one = |c: char| {
            let mut v: Vec<char> = a.chars().collect();
            match i % 2 {
                0 => v.extend(crate::refimpl::normalize(&[c], Form::Nfkd)),
                _ => v.push(c),
            }
            v.extend(z.chars());
            Text(v)
        };
        Some(Pair { a: one(x), b: one(y) })
    }, move |c: &Pair, o| {
        chk(&c.a, o)?;
        for (t, after) in [(&c.b, &c.a), (&c.a, &c.b)] {
            chk(t, o).map_err(|e| format!("{e} (after a call with <{}>)", hexs(&after.0)))?;
        }
        o.weight = 3;
        Ok(())
    })
}
