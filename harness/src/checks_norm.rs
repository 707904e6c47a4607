//! C04 .. C10, C23
use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::refimpl::*;
use crate::stress::*;
use proptest::prelude::*;
use proptest::strategy::Strategy;
use seshat::unicode::Ucd;
use std::collections::HashMap;
use std::sync::OnceLock;

fn check_form(v: &[char], s: &str, f: Form) -> Result<(), String> {
    let got = norm_chars(s, f);
    let want = normalize(v, f);
    if got != want {
        return Err(format!("{f:?} of <{}> is <{}>, want <{}>", hexs(v), hexs(&got), hexs(&want)));
    }
    Ok(())
}
fn has_reorder(v: &[char]) -> bool {
    let c = &ucd().ccc;
    v.windows(2).any(|w| c[w[1] as usize] != 0 && c[w[0] as usize] > c[w[1] as usize])
}
fn decomposes(v: &[char]) -> bool {
    v.iter().any(|c| ucd().dm.contains_key(&(*c as u32)) || hangul_split(*c as u32).is_some())
}

fn forms_check(forms: &'static [Form]) -> impl Fn(&Text, &mut Obs) -> Result<(), String> + Send + Sync + Clone {
    move |c, o| {
        let s = c.s();
        for f in forms {
            check_form(&c.0, &s, *f)?;
        }
        let d = has_reorder(&c.0);
        let changed = forms.iter().any(|f| normalize(&c.0, *f) != c.0);
        o.nt(changed);
        o.class("reordering needed", d);
        o.class("decomposable char", decomposes(&c.0));
        o.class("composes", {
            let x = decompose(&c.0, false);
            compose(&x).len() < x.len()
        });
        o.class("starts with mark", c.0.first().is_some_and(|x| ucd().ccc[*x as usize] != 0));
        o.class("mark run over 30", {
            let mut n = 0;
            c.0.iter().any(|x| { n = if ucd().ccc[*x as usize] != 0 { n + 1 } else { 0 }; n > 30 })
        });
        o.class("excluded char", c.0.iter().any(|x| ucd().b("Full_Composition_Exclusion", *x as u32)));
        o.class("over 256 chars", c.0.len() > 256);
        Ok(())
    }
}
const DEC: &[Form] = &[Form::Nfd, Form::Nfkd];
const COM: &[Form] = &[Form::Nfc, Form::Nfkc];

fn char_contexts() -> &'static Vec<(Vec<char>, Vec<char>)> {
    static T: OnceLock<Vec<(Vec<char>, Vec<char>)>> = OnceLock::new();
    T.get_or_init(|| {
        [("", ""), ("a", ""), ("", "\u{301}"), ("a\u{300}", ""), ("a", "\u{323}"), ("\u{301}", "\u{323}"), ("\u{1100}", ""),
         ("", "\u{1161}"), ("\u{AC00}", ""), ("", "\u{11A8}"), ("", "\u{338}"), ("\u{3046}", ""), ("", "\u{3099}"), ("\u{345}\u{1D165}", "\u{5B0}\u{334}"),
         ("\u{9C7}", ""), ("\u{1025}\u{302E}", "\u{30F}"), ("e\u{301}", "e\u{301}"), ("\u{1112}\u{1175}", ""), ("\u{115F}", "\u{11C3}"), ("\u{FF76}", "\u{FF9E}")]
            .iter().map(|(a, b)| (a.chars().collect(), b.chars().collect())).collect()
    })
}
fn ctx_section(forms: &'static [Form]) -> Box<dyn Section> {
    exh("every scalar in every context", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), move |c: &Cp, o| {
        let x = char::from_u32(c.cp).unwrap();
        o.nt(true);
        o.weight = (char_contexts().len() * forms.len()) as u64;
        let mut v: Vec<char> = vec![];
        for (a, b) in char_contexts() {
            v.clear();
            v.extend(a);
            v.push(x);
            v.extend(b);
            let s: String = v.iter().collect();
            for f in forms {
                check_form(&v, &s, *f)?;
            }
        }
        Ok(())
    })
}

pub fn c04_def(t: Tier) -> CheckDef {
    let p = pools();
    let nm = p.marks.len() as u64;
    let by = p.marks_by_ccc.len() as u64;
    let chk = forms_check(DEC);
    CheckDef {
        rule: "cases: every scalar in 20 contexts, all pairs of non-starters, all class triples and quadruples of non-starters, structured random strings, long mark runs; NFD and NFKD compared with an independent UAX #15 implementation. Non-trivial: normalization changes the string (contexts count as such); distinct by content",
        assumptions: &["oracle/ucd-15.1.0.txt is Unicode 15.1 (cross-checked against ICU 74.2 when built)"],
        sections: vec![
            ctx_section(DEC),
            exh("all pairs of non-starters", nm * nm, true, true, move |i| {
                let p = pools();
                Some(Text(vec![p.marks[(i % nm) as usize], p.marks[(i / nm) as usize]]))
            }, chk.clone()),
            exh("all triples of combining classes after a starter", by.pow(3), true, true, move |i| {
                let p = pools();
                let m = |k: u64| { let v = &p.marks_by_ccc[(k % by) as usize]; v[i as usize % v.len()] };
                Some(Text(vec!['a', m(i), m(i / by), m(i / by / by)]))
            }, chk.clone()),
            rnd("normalization-structured", t.pick(250_000, 5_000_000), || norm_text(4, 40), chk.clone()),
            rnd("short", t.pick(300_000, 6_000_000), || norm_text(1, 12), chk.clone()),
            rnd("mixed text", t.pick(60_000, 1_000_000), || mixed_text(5, 40), chk.clone()),
            counted(300, 4096, chk.clone()),
            rnd_exact("texts of round lengths", t.pick(3_000, 60_000), || scaled_text(4096), chk.clone()),
            beside("everything active beside every kind of neighbour", active(), t.pick(2, 1), chk.clone()),
            very_long(&[8_300, 16_500, 33_000], &["x", "\u{1D5}", "\u{301}", "a\u{345}\u{323}"], chk.clone()),
            collisions(1, chk.clone()),
            successive(t.pick(2, 1), norm_twins(), &[("", ""), ("a", "")], chk.clone()),
            rnd("long runs", t.pick(1_500, 30_000), || norm_text(5, 520), chk.clone()),
        ],
    }
}

pub fn c05_def(t: Tier) -> CheckDef {
    let p = pools();
    let chk = forms_check(COM);
    let na = p.norm_active.len() as u64;
    let np = p.comp_pairs.len() as u64;
    let nm = p.marks.len() as u64;
    let by = p.marks_by_ccc.len() as u64;
    let nc = p.chained.len() as u64;
    CheckDef {
        rule: "cases: every scalar in 20 contexts, all pairs of normalization-active characters, every composition pair with every mark slipped in between, chained compositions with two inserted class representatives, structured random strings; NFC and NFKC compared with an independent UAX #15 implementation. Non-trivial: normalization changes the string (contexts count as such); distinct by content",
        assumptions: &["oracle/ucd-15.1.0.txt is Unicode 15.1 (cross-checked against ICU 74.2 when built)"],
        sections: vec![
            ctx_section(COM),
            exh("all pairs of normalization-active characters", na * na, true, true, move |i| {
                let p = pools();
                Some(Text(vec![p.norm_active[(i % na) as usize], p.norm_active[(i / na) as usize]]))
            }, |c: &Text, o| {
                let s = c.s();
                o.nt(normalize(&c.0, Form::Nfc) != c.0);
                check_form(&c.0, &s, Form::Nfc)
            }),
            exh("every composition pair with every mark between", np * nm, true, true, move |i| {
                let p = pools();
                let (a, b) = p.comp_pairs[(i % np) as usize];
                Some(Text(vec![a, p.marks[(i / np) as usize], b]))
            }, chk.clone()),
            exh("chained compositions with two class representatives inserted", nc * by * by * 3, true, true, move |i| {
                let p = pools();
                let c = p.chained[(i % nc) as usize];
                let j = i / nc;
                let m = |k: u64| { let v = &p.marks_by_ccc[(k % by) as usize]; v[(i as usize / 7) % v.len()] };
                let mut d = vec![];
                ucd().full(c as u32, false, &mut d);
                let mut d = to_chars(&d);
                match j / by / by {
                    0 => { d.insert(1, m(j)); d.insert(2, m(j / by)); }
                    1 => { d.insert(1, m(j)); d.push(m(j / by)); }
                    _ => { let e = d.len() - 1; d.insert(e, m(j)); d.insert(e, m(j / by)); }
                }
                Some(Text(d))
            }, chk.clone()),
            rnd("normalization-structured", t.pick(250_000, 5_000_000), || norm_text(4, 40), chk.clone()),
            rnd("short", t.pick(300_000, 6_000_000), || norm_text(1, 12), chk.clone()),
            rnd("mixed text", t.pick(50_000, 1_000_000), || mixed_text(5, 40), chk.clone()),
            counted(300, 4096, chk.clone()),
            rnd_exact("texts of round lengths", t.pick(3_000, 60_000), || scaled_text(4096), chk.clone()),
            beside("everything active beside every kind of neighbour", active(), t.pick(2, 1), chk.clone()),
            very_long(&[8_300, 16_500, 33_000], &["x", "e\u{301}", "\u{1100}\u{1161}\u{11A8}", "\u{1D5}y"], chk.clone()),
            collisions(1, chk.clone()),
            successive(t.pick(2, 1), norm_twins(), &[("", ""), ("a", "")], chk.clone()),
            rnd("long runs", t.pick(1_200, 30_000), || norm_text(5, 520), chk.clone()),
        ],
    }
}

// ------------------------------------------------------------------- C06
fn algebra(s: &str) -> Result<bool, String> {
    let n: Vec<String> = FORMS.iter().map(|f| norm(s, *f)).collect();
    let ix = |compat: bool, comp: bool| FORMS.iter().position(|f| f.compat() == compat && f.composed() == comp).unwrap();
    for (i, f) in FORMS.iter().enumerate() {
        for g in FORMS.iter() {
            let got = norm(&n[i], *g);
            let want = &n[ix(f.compat() || g.compat(), g.composed())];
            if got != *want {
                return Err(format!("{g:?}({f:?}(x)) is <{}>, want <{}>", hexs(&got.chars().collect::<Vec<_>>()), hexs(&want.chars().collect::<Vec<_>>())));
            }
        }
    }
    Ok(n.iter().any(|x| x != s))
}
pub fn c06_def(t: Tier) -> CheckDef {
    let p = pools();
    let chk = |c: &Text, o: &mut Obs| {
        let s = c.s();
        o.nt(algebra(&s)?);
        o.class("marks reorder", has_reorder(&c.0));
        o.class("decomposable", decomposes(&c.0));
        Ok(())
    };
    let na = p.norm_active.len() as u64;
    let step = t.pick(5, 1);
    CheckDef {
        rule: "cases: every scalar alone and in contexts, pairs of normalization-active characters, structured random strings, and pairs of strings for the equal-NFC-iff-equal-NFD law; all 16 compositions of forms are compared. Non-trivial: some form changes the string (pairs: the two strings differ and are equivalent); distinct by content",
        assumptions: &[],
        sections: vec![
            exh("every scalar in contexts", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                let x = char::from_u32(c.cp).unwrap();
                o.weight = 64;
                for (a, b) in [("", ""), ("a", ""), ("", "\u{301}"), ("\u{1100}", "\u{11A8}")] {
                    let s = format!("{a}{x}{b}");
                    let ch = algebra(&s).map_err(|e| format!("<{}>: {e}", hexs(&s.chars().collect::<Vec<_>>())))?;
                    o.nt(ch && a.is_empty() && b.is_empty());
                }
                Ok(())
            }),
            exh("pairs of normalization-active characters", na * na / step, step == 1, true, move |i| {
                let p = pools();
                let i = i * step + i % step;
                Some(Text(vec![p.norm_active[(i % na) as usize], p.norm_active[(i / na) as usize % na as usize]]))
            }, chk),
            rnd("normalization-structured", t.pick(100_000, 2_500_000), || norm_text(4, 40), chk),
            rnd("short", t.pick(150_000, 3_000_000), || norm_text(1, 12), chk),
            rnd("mixed text", t.pick(30_000, 500_000), || mixed_text(4, 40), chk),
            rnd("long runs", t.pick(400, 10_000), || norm_text(4, 300), chk),
            counted(264, 1100, chk),
            rnd_exact("texts of round lengths", t.pick(1_500, 30_000), || scaled_text(2048), chk),
            very_long(&[8_300, 16_500], &["x", "\u{1100}\u{1161}\u{11A8}", "e\u{301}"], chk),
            beside("active characters beside every kind of neighbour", active(), t.pick(29, 3), chk),
            collisions(t.pick(3, 1), chk),
            successive(t.pick(5, 1), norm_twins(), &[("", "")], chk),
            rnd("equal NFC iff equal NFD", t.pick(150_000, 3_000_000), || (norm_text(2, 12), proptest::collection::vec(any::<u32>(), 0..6)).prop_map(|(t, ops)| TextOps { t, ops }), |c: &TextOps, o| {
                // the other string: a perturbation that may or may not stay equivalent
                let mut w = c.t.0.clone();
                for x in &c.ops {
                    rewrite(&mut w, *x, true);
                    if x % 11 == 0 && w.len() > 1 {
                        let k = (*x as usize / 11) % (w.len() - 1);
                        w.swap(k, k + 1); // not necessarily an equivalence
                    }
                }
                let a = c.t.s();
                let b: String = w.iter().collect();
                let eq: Vec<bool> = FORMS.iter().map(|f| norm(&a, *f) == norm(&b, *f)).collect();
                o.nt(a != b && eq[1]);
                o.class("canonically equivalent", eq[0]);
                o.class("compatibility equivalent only", eq[1] && !eq[0]);
                o.class("not equivalent", !eq[1]);
                if eq[0] != eq[2] {
                    return Err(format!("<{}> and <{}>: NFD equal is {}, NFC equal is {}", hexs(&c.t.0), hexs(&w), eq[0], eq[2]));
                }
                if eq[1] != eq[3] {
                    return Err(format!("<{}> and <{}>: NFKD equal is {}, NFKC equal is {}", hexs(&c.t.0), hexs(&w), eq[1], eq[3]));
                }
                if eq[0] && !eq[1] {
                    return Err(format!("<{}> and <{}>: NFD equal but NFKD different", hexs(&c.t.0), hexs(&w)));
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------- C07
fn reverse() -> &'static (HashMap<Vec<u32>, Vec<u32>>, HashMap<Vec<u32>, Vec<u32>>) {
    static R: OnceLock<(HashMap<Vec<u32>, Vec<u32>>, HashMap<Vec<u32>, Vec<u32>>)> = OnceLock::new();
    R.get_or_init(|| {
        let o = ucd();
        let mut can: HashMap<Vec<u32>, Vec<u32>> = HashMap::new();
        let mut compat: HashMap<Vec<u32>, Vec<u32>> = HashMap::new();
        let mut ks: Vec<_> = o.dm.iter().collect();
        ks.sort();
        for (c, d) in ks {
            if o.canon[*c as usize] { can.entry(d.clone()).or_default().push(*c) } else { compat.entry(d.clone()).or_default().push(*c) }
        }
        (can, compat)
    })
}
/// One equivalence-preserving rewriting step chosen by `x`; true if it changed the text.
pub fn rewrite(w: &mut Vec<char>, x: u32, compat: bool) -> bool {
    if w.is_empty() {
        return false;
    }
    let o = ucd();
    let n = w.len();
    let start = (x >> 8) as usize % n;
    let kinds = if compat { 6 } else { 4 };
    let kind = x as usize % kinds;
    // the first applicable position at or after `start`, cyclically
    for d in 0..n {
        let i = (start + d) % n;
        let c = w[i] as u32;
        match kind {
            0 => {
                // one stage of canonical decomposition
                let d = if let Some((a, b)) = hangul_split(c) { Some(vec![a, b]) } else if o.canon[c as usize] { o.dm.get(&c).cloned() } else { None };
                if let Some(d) = d {
                    w.splice(i..=i, to_chars(&d));
                    return true;
                }
            }
            1 => {
                // undo one stage of canonical decomposition (any character with that mapping)
                if i + 1 < n {
                    let k = vec![c, w[i + 1] as u32];
                    let mut cands = reverse().0.get(&k).cloned().unwrap_or_default();
                    cands.extend(o.compose_pair(k[0], k[1]));
                    if !cands.is_empty() {
                        let p = cands[(x >> 3) as usize % cands.len()];
                        w.splice(i..=i + 1, [char::from_u32(p).unwrap()]);
                        return true;
                    }
                }
            }
            2 => {
                if let Some(l) = reverse().0.get(&vec![c]) {
                    w[i] = char::from_u32(l[(x >> 3) as usize % l.len()]).unwrap();
                    return true;
                }
            }
            3 => {
                if i + 1 < n {
                    let (a, b) = (o.ccc[c as usize], o.ccc[w[i + 1] as usize]);
                    if a != 0 && b != 0 && a != b {
                        w.swap(i, i + 1);
                        return true;
                    }
                }
            }
            4 => {
                if !o.canon[c as usize] {
                    if let Some(d) = o.dm.get(&c) {
                        w.splice(i..=i, to_chars(d));
                        return true;
                    }
                }
            }
            _ => {
                for len in 1..=3.min(n - i) {
                    let k: Vec<u32> = w[i..i + len].iter().map(|c| *c as u32).collect();
                    if let Some(l) = reverse().1.get(&k) {
                        let p = l[(x >> 3) as usize % l.len()];
                        w.splice(i..i + len, [char::from_u32(p).unwrap()]);
                        return true;
                    }
                }
            }
        }
    }
    false
}
fn equiv_check(compat: bool) -> impl Fn(&TextOps, &mut Obs) -> Result<(), String> + Send + Sync + Clone {
    move |c, o| {
        let mut w = c.t.0.clone();
        let mut steps = 0;
        for x in &c.ops {
            steps += rewrite(&mut w, *x, compat) as u32;
        }
        o.nt(w != c.t.0);
        o.class("5+ rewriting steps", steps >= 5);
        o.class("mark order changed", has_reorder(&w));
        let (a, b) = (c.t.s(), w.iter().collect::<String>());
        for f in FORMS {
            if compat && !f.compat() {
                continue;
            }
            let (x, y) = (norm(&a, f), norm(&b, f));
            if x != y {
                return Err(format!("equivalent strings <{}> and <{}> have {f:?} <{}> and <{}>", hexs(&c.t.0), hexs(&w),
                    hexs(&x.chars().collect::<Vec<_>>()), hexs(&y.chars().collect::<Vec<_>>())));
            }
        }
        Ok(())
    }
}
/// some rewriting steps that depend on the text only
fn mixed_ops(c: &Text) -> Vec<u32> {
    let mut x = c.0.iter().fold(c.0.len() as u32, |a, c| a.rotate_left(7) ^ (*c as u32).wrapping_mul(0x9E37_79B1));
    (0..4).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); x >> 3 }).collect()
}
pub fn c07_def(t: Tier) -> CheckDef {
    let to = |p, r, n: usize| (norm_text(p, r), proptest::collection::vec(any::<u32>(), 1..n)).prop_map(|(t, ops)| TextOps { t, ops });
    CheckDef {
        rule: "cases: random structured strings and random sequences of equivalence-preserving rewriting steps (decompose one stage, compose, replace by a singleton, swap marks of different classes; compatibility steps for NFKC/NFKD). Non-trivial: the rewritten string differs from the original; distinct by content and steps",
        assumptions: &["rewriting steps are taken from oracle/ucd-15.1.0.txt"],
        sections: vec![
            exh("every decomposing character against every stage of its decomposition", N as u64, true, true, |i| (is_scalar(i as u32) && !ucd().dm_of(i as u32).is_empty()).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.nt(true);
                let u = ucd();
                let canon = u.canon[c.cp as usize] || hangul_split(c.cp).is_some();
                let a = char::from_u32(c.cp).unwrap().to_string();
                let mut st = vec![to_chars(&u.dm_of(c.cp))];
                let mut full = vec![];
                u.full(c.cp, !canon, &mut full);
                st.push(to_chars(&full));
                for v in st {
                    let b: String = v.iter().collect();
                    for (pre, post) in [("", ""), ("x", "\u{316}"), ("\u{5B0}", "\u{301}")] {
                        let (a, b) = (format!("{pre}{a}{post}"), format!("{pre}{b}{post}"));
                        for f in FORMS {
                            if (canon || f.compat()) && norm(&a, f) != norm(&b, f) {
                                return Err(format!("U+{:04X} and <{}> in context ({pre:?},{post:?}) differ in {f:?}", c.cp, hexs(&v)));
                            }
                        }
                    }
                }
                Ok(())
            }),
            rnd("canonical equivalence", t.pick(300_000, 6_000_000), move || to(2, 12, 12), equiv_check(false)),
            rnd("compatibility equivalence", t.pick(200_000, 4_000_000), move || to(2, 12, 12), equiv_check(true)),
            rnd("canonical equivalence, longer", t.pick(40_000, 800_000), move || to(5, 40, 60), equiv_check(false)),
            rnd("compatibility equivalence, longer", t.pick(20_000, 400_000), move || to(5, 40, 60), equiv_check(true)),
            counted(264, 1100, |c: &Text, o| equiv_check(true)(&TextOps { t: c.clone(), ops: mixed_ops(c) }, o)),
            rnd_exact("texts of round lengths, canonical", t.pick(2_000, 40_000), || (scaled_text(2048), proptest::collection::vec(any::<u32>(), 1..40)).prop_map(|(t, ops)| TextOps { t, ops }), equiv_check(false)),
            rnd_exact("texts of round lengths, compatibility", t.pick(2_000, 40_000), || (scaled_text(2048), proptest::collection::vec(any::<u32>(), 1..40)).prop_map(|(t, ops)| TextOps { t, ops }), equiv_check(true)),
            very_long(&[8_300, 16_500, 33_000], &["\u{1D5}y", "\u{AC01}", "e\u{323}\u{301}"], |c: &Text, o| equiv_check(true)(&TextOps { t: c.clone(), ops: mixed_ops(c) }, o)),
            beside("active characters beside every kind of neighbour", active(), t.pick(29, 3), |c: &Text, o| equiv_check(true)(&TextOps { t: c.clone(), ops: mixed_ops(c) }, o)),
            collisions(t.pick(3, 1), |c: &Text, o| equiv_check(true)(&TextOps { t: c.clone(), ops: mixed_ops(c) }, o)),
            successive(t.pick(5, 1), norm_twins(), &[("", "")], |c: &Text, o| equiv_check(true)(&TextOps { t: c.clone(), ops: mixed_ops(c) }, o)),
            rnd("long mark runs", t.pick(500, 10_000), move || to(3, 260, 400), equiv_check(false)),
        ],
    }
}

// ------------------------------------------------------------------- C08
fn cannot_interact(b: &[char], f: Form) -> bool {
    // first character of the full decomposition is a starter and never the second of a composition
    let o = ucd();
    let Some(c) = b.first() else { return true };
    let mut d = vec![];
    o.full(*c as u32, f.compat(), &mut d);
    o.ccc[d[0] as usize] == 0 && (!f.composed() || (pools().comp_second.binary_search(&char::from_u32(d[0]).unwrap()).is_err()
        && !(0x1161..=0x1175).contains(&d[0]) && !(0x11A8..=0x11C2).contains(&d[0])))
}
fn concat_check(c: &Pair, o: &mut Obs) -> Result<(), String> {
    let (a, b) = (c.a.s(), c.b.s());
    let ab = format!("{a}{b}");
    let mut free = false;
    let mut inter = false;
    for f in FORMS {
        let (na, nb, nab) = (norm(&a, f), norm(&b, f), norm(&ab, f));
        let cat = format!("{na}{nb}");
        if norm(&cat, f) != nab {
            return Err(format!("{f:?}({f:?}(a)+{f:?}(b)) differs from {f:?}(a+b) = <{}>", hexs(&nab.chars().collect::<Vec<_>>())));
        }
        for (x, y) in [(&a, &nb), (&na, &b)] {
            if norm(&format!("{x}{y}"), f) != nab {
                return Err(format!("{f:?} of half-normalized concatenation differs"));
            }
        }
        if cannot_interact(&c.b.0, f) {
            free = true;
            if cat != nab {
                return Err(format!("{f:?} parts do not simply concatenate: <{}> + <{}> but whole is <{}>", hexs(&na.chars().collect::<Vec<_>>()),
                    hexs(&nb.chars().collect::<Vec<_>>()), hexs(&nab.chars().collect::<Vec<_>>())));
            }
        } else {
            inter |= cat != nab;
        }
    }
    o.nt(!a.is_empty() && !b.is_empty());
    o.class("parts simply concatenate", free);
    o.class("parts interact", inter);
    Ok(())
}
fn substr_check(c: &TextOps, o: &mut Obs) -> Result<(), String> {
    let s = c.t.s();
    for f in FORMS {
        let n = norm_chars(&s, f);
        o.nt(n.len() >= 2);
        let mut cuts: Vec<(usize, usize)> = vec![];
        if n.len() <= 9 {
            for i in 0..n.len() {
                for j in i + 1..=n.len() {
                    cuts.push((i, j));
                }
            }
        } else {
            for w in c.ops.windows(2) {
                let (i, j) = (w[0] as usize % (n.len() + 1), w[1] as usize % (n.len() + 1));
                cuts.push((i.min(j), i.max(j)));
            }
        }
        for (i, j) in cuts {
            let sub: String = n[i..j].iter().collect();
            if norm(&sub, f) != sub {
                return Err(format!("substring {i}..{j} <{}> of the {f:?} <{}> is not in that form", hexs(&n[i..j]), hexs(&n)));
            }
        }
    }
    Ok(())
}
pub fn c08_def(t: Tier) -> CheckDef {
    let pair = |p, r| (norm_text(p, r), norm_text(p, r)).prop_map(|(a, b)| Pair { a, b });
    CheckDef {
        rule: "cases: random pairs of structured strings for the concatenation laws, all (short) or random (long) substrings of normalized strings, every unassigned/private-use/noncharacter code point between interacting neighbours. Non-trivial: both parts non-empty, or a normalized string of two or more characters; distinct by content",
        assumptions: &["which first characters cannot interact is computed from oracle/ucd-15.1.0.txt"],
        sections: vec![
            exh("inert code points between neighbours", N as u64, true, true, |i| (is_scalar(i as u32) && matches!(ucd().e("gc", i as u32), "Cn" | "Co")).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.nt(true);
                o.weight = 20;
                let x = char::from_u32(c.cp).unwrap();
                for (a, b) in [("", ""), ("e", "\u{301}"), ("\u{1100}", "\u{1161}"), ("\u{315}", "\u{300}"), ("\u{FB01}\u{E9}", "\u{212B}\u{323}")] {
                    for f in FORMS {
                        let got = norm(&format!("{a}{x}{b}"), f);
                        let want = format!("{}{x}{}", norm(a, f), norm(b, f));
                        if got != want {
                            return Err(format!("{f:?} of {a:?} U+{:04X} {b:?} is <{}>, want <{}>", c.cp, hexs(&got.chars().collect::<Vec<_>>()), hexs(&want.chars().collect::<Vec<_>>())));
                        }
                    }
                }
                Ok(())
            }),
            rnd("concatenation", t.pick(150_000, 3_000_000), move || pair(2, 12), concat_check),
            rnd("concatenation, single characters", t.pick(300_000, 6_000_000), || (proptest::collection::vec(norm_char(), 0..4), proptest::collection::vec(norm_char(), 0..4)).prop_map(|(a, b)| Pair { a: Text(a), b: Text(b) }), concat_check),
            rnd("concatenation, longer", t.pick(8_000, 150_000), move || pair(4, 70), concat_check),
            counted(264, 1100, |c: &Text, o| {
                let k = c.0.len() / 2;
                concat_check(&Pair { a: Text(c.0[..k].to_vec()), b: Text(c.0[k..].to_vec()) }, o)
            }),
            very_long(&[8_300, 16_500], &["x", "e\u{301}", "\u{1100}\u{1161}\u{11A8}", "\u{AC00}\u{11A8}z"], |c: &Text, o| {
                let k = c.0.len() * (c.0.len() % 3 + 1) / 4 + 1;
                concat_check(&Pair { a: Text(c.0[..k].to_vec()), b: Text(c.0[k..].to_vec()) }, o)
            }),
            beside("interacting characters beside every kind of neighbour", active(), t.pick(29, 3), |c: &Text, o| {
                let k = c.0.len() / 2 - 1;
                concat_check(&Pair { a: Text(c.0[..k].to_vec()), b: Text(c.0[k..].to_vec()) }, o)
            }),
            rnd_exact("texts of round lengths, cut anywhere", t.pick(2_500, 50_000), || (scaled_text(2048), any::<u16>()).prop_map(|(t, x)| {
                let k = x as usize % (t.0.len() + 1);
                Pair { a: Text(t.0[..k].to_vec()), b: Text(t.0[k..].to_vec()) }
            }), concat_check),
            collisions(t.pick(3, 1), |c: &Text, o| {
                let k = c.0.len() / 2;
                concat_check(&Pair { a: Text(c.0[..k].to_vec()), b: Text(c.0[k..].to_vec()) }, o)
            }),
            rnd("substrings", t.pick(150_000, 3_000_000), || (norm_text(2, 10), proptest::collection::vec(any::<u32>(), 2..12)).prop_map(|(t, ops)| TextOps { t, ops }), substr_check),
            rnd("inert neighbours", t.pick(80_000, 1_500_000), || (norm_text(2, 10), norm_text(2, 10), any::<u32>()).prop_map(|(a, b, x)| Tri { a, b, x }), |c: &Tri, o| {
                let p = pools();
                let x = match c.x % 3 {
                    0 => p.unassigned[(c.x / 3) as usize % p.unassigned.len()],
                    1 => char::from_u32(0xE000 + (c.x / 3) % 0x1900).unwrap(),
                    _ => char::from_u32(0xF0000 + (c.x / 3) % 0x1FFFE).unwrap(),
                };
                o.nt(!c.a.0.is_empty() && !c.b.0.is_empty());
                let (a, b) = (c.a.s(), c.b.s());
                for f in FORMS {
                    let got = norm(&format!("{a}{x}{b}"), f);
                    let want = format!("{}{x}{}", norm(&a, f), norm(&b, f));
                    if got != want {
                        return Err(format!("{f:?} around U+{:04X}: <{}>, want <{}>", x as u32, hexs(&got.chars().collect::<Vec<_>>()), hexs(&want.chars().collect::<Vec<_>>())));
                    }
                }
                Ok(())
            }),
        ],
    }
}
#[derive(Clone, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct Tri {
    pub a: Text,
    pub b: Text,
    pub x: u32,
}
impl Case for Tri {
    fn simpler(&self) -> Vec<Self> {
        let mut o: Vec<Tri> = self.a.simpler().into_iter().map(|a| Tri { a, ..self.clone() }).collect();
        o.extend(self.b.simpler().into_iter().map(|b| Tri { b, ..self.clone() }));
        o
    }
}

// ------------------------------------------------------------------- C09
const JL: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const JV: [&str; 21] = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
const JT: [&str; 28] = ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"];
pub fn c09_def(t: Tier) -> CheckDef {
    let all = forms_check(&FORMS);
    CheckDef {
        rule: "cases: all 11,172 syllables with every split, all jamo triples over the modern ranges and their outer neighbours, all code points of the Hangul blocks in jamo contexts, random jamo strings against the reference. Non-trivial: some form changes the string; distinct by content",
        assumptions: &[],
        sections: vec![
            exh("all syllables", 11172, true, true, |i| Some(Cp { cp: 0xAC00 + i as u32 }), |c: &Cp, o| {
                o.nt(true);
                o.weight = 12;
                let i = c.cp - 0xAC00;
                let (l, v, tt) = (i / 588, i % 588 / 28, i % 28);
                let x = char::from_u32(c.cp).unwrap();
                let (lc, vc, tc) = (char::from_u32(0x1100 + l).unwrap(), char::from_u32(0x1161 + v).unwrap(), char::from_u32(0x11A7 + tt).unwrap());
                let lv = char::from_u32(c.cp - tt).unwrap();
                let dm: String = if tt == 0 { [lc, vc].iter().collect() } else { [lv, tc].iter().collect() };
                let full: String = if tt == 0 { [lc, vc].iter().collect() } else { [lc, vc, tc].iter().collect() };
                if x.dm() != dm || cp(c.cp).dm() != dm {
                    return Err(format!("decomposition mapping is <{}>", hexs(&x.dm().chars().collect::<Vec<_>>())));
                }
                for f in [Form::Nfd, Form::Nfkd] {
                    if norm(&x.to_string(), f) != full {
                        return Err(format!("{f:?} is <{}>", hexs(&norm_chars(&x.to_string(), f))));
                    }
                }
                for f in [Form::Nfc, Form::Nfkc] {
                    for src in [full.clone(), dm.clone(), x.to_string()] {
                        if norm(&src, f) != x.to_string() {
                            return Err(format!("{f:?} of <{}> is <{}>", hexs(&src.chars().collect::<Vec<_>>()), hexs(&norm_chars(&src, f))));
                        }
                    }
                }
                let name = format!("HANGUL SYLLABLE {}{}{}", JL[l as usize], JV[v as usize], JT[tt as usize]);
                if x.na() != name || cp(c.cp).na() != name {
                    return Err(format!("name is {:?}, want {name:?}", x.na()));
                }
                let h = crate::enums::hst(x.hst());
                if h != if tt == 0 { "LV" } else { "LVT" } {
                    return Err(format!("syllable type {h}"));
                }
                Ok(())
            }),
            exh("jamo triples with range neighbours", 22 * 26 * 33, true, true, |i| {
                Some(Text(to_chars(&[0x10FE + (i % 22) as u32, 0x115E + (i / 22 % 26) as u32, 0x11A5 + (i / 22 / 26) as u32])))
            }, all.clone()),
            exh("jamo pairs with range neighbours and syllables", 64 * 1500, true, true, |i| {
                let a = [0x1100u32, 0x1112, 0x1113, 0x10FF, 0x115F, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xA960, 0xA97C, 0xD7B0,
                         0xD7C6, 0xD7CB, 0xD7FB, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xAC1D, 0xD788, 0xD789, 0xD7A3, 0xD7A4, 0xABFF, 0x3131, 0xFFA1, 0x302E];
                let b = (i / 64) as u32;
                let b = if b < 0x100 { 0x1100 + b } else if b < 0x120 { 0xA960 + b - 0x100 } else if b < 0x170 { 0xD7A4 + b - 0x120 } else { 0xAC00 + (b - 0x170) * 9 };
                let x = a[(i % 32) as usize];
                if !is_scalar(x) || !is_scalar(b) { return None }
                Some(Text(to_chars(&if i % 64 < 32 { [x, b] } else { [b, x] })))
            }, all.clone()),
            exh("Hangul blocks: mappings, names and types outside the syllables", 0x3000, true, true, |i| {
                let c = match i { 0..=0xFF => 0x1100 + i as u32, 0x100..=0x11F => 0xA960 + i as u32 - 0x100, 0x120..=0x17F => 0xD7A4 + i as u32 - 0x120, 0x180..=0x1FF => 0x3130 + i as u32 - 0x180,
                    0x200..=0x2FF => 0xFF60 + i as u32 - 0x200, _ => return None };
                Some(Cp { cp: c })
            }, |c: &Cp, o| {
                o.nt(true);
                let u = ucd();
                let p = cp(c.cp);
                let want: String = u.dm_of(c.cp).iter().map(|x| char::from_u32(*x).unwrap()).collect();
                if p.dm() != want { return Err(format!("dm {:?} want {want:?}", p.dm())); }
                if p.na() != u.name(c.cp) { return Err(format!("na {:?} want {:?}", p.na(), u.name(c.cp))); }
                if crate::enums::hst(p.hst()) != u.e("hst", c.cp) { return Err("hst differs".into()); }
                Ok(())
            }),
            rnd("random jamo strings", t.pick(300_000, 6_000_000), || proptest::collection::vec(hangul_char(), 1..14).prop_map(Text), all.clone()),
            rnd("long jamo strings", t.pick(3_000, 60_000), || proptest::collection::vec(hangul_char(), 50..400).prop_map(Text), all.clone()),
        ],
    }
}

// ------------------------------------------------------------------- C10
fn wellformed(c: &Text, o: &mut Obs) -> Result<(), String> {
    let s = c.s();
    let u = ucd();
    for f in FORMS {
        let n = norm_chars(&s, f);
        o.nt(n != c.0);
        let mut prev = 0u8;
        for (i, x) in n.iter().enumerate() {
            let cc = x.ccc() as u8;
            if cc != 0 && prev > cc {
                return Err(format!("{f:?} output <{}>: combining class falls from {prev} to {cc} at {i}", hexs(&n)));
            }
            prev = cc;
            let dt = crate::enums::dt(x.dt());
            if f.composed() {
                if x.comp_ex() {
                    return Err(format!("{f:?} output contains fully excluded U+{:04X}", *x as u32));
                }
            } else if dt == "Can" {
                return Err(format!("{f:?} output contains canonically decomposable U+{:04X}", *x as u32));
            }
            if f.compat() && dt != "None" && dt != "Can" {
                return Err(format!("{f:?} output contains compatibility decomposable U+{:04X}", *x as u32));
            }
        }
        if f.composed() {
            let mut st: Option<char> = None;
            let mut last = 0u8;
            let mut between = false;
            for x in &n {
                let cc = u.ccc[*x as usize];
                if let Some(l) = st {
                    if !between || (last != 0 && last < cc) {
                        if let Some(p) = u.compose_pair(l as u32, *x as u32) {
                            return Err(format!("{f:?} output <{}> still contains the composable unblocked pair {:04X} {:04X} -> {p:04X}", hexs(&n), l as u32, *x as u32));
                        }
                    }
                }
                if cc == 0 {
                    st = Some(*x);
                    between = false;
                    last = 0;
                } else {
                    between = true;
                    last = cc;
                }
            }
        }
    }
    o.class("reordering needed", has_reorder(&c.0));
    o.class("excluded char in input", c.0.iter().any(|x| u.b("Full_Composition_Exclusion", *x as u32)));
    Ok(())
}
pub fn c10_def(t: Tier) -> CheckDef {
    CheckDef {
        rule: "cases: every code point alone (survival of NFC, exclusion flags and mappings against normalization), structured random strings whose four outputs are inspected with the crate's accessors. Non-trivial: some form changes the string, or the code point has a mapping or exclusion; distinct by content",
        assumptions: &[],
        sections: vec![
            exh("every scalar alone", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                let x = char::from_u32(c.cp).unwrap();
                let s = x.to_string();
                let p = cp(c.cp);
                let dm = p.dm();
                let dt = crate::enums::dt(p.dt());
                let ex = p.comp_ex();
                o.nt(!dm.is_empty() || ex);
                if dm.is_empty() != (dt == "None") {
                    return Err(format!("mapping {dm:?} with type {dt}"));
                }
                let surv = norm(&s, Form::Nfc) == s;
                if surv == ex {
                    return Err(format!("survives NFC: {surv}, fully excluded: {ex}"));
                }
                if p.ce() && !ex {
                    return Err("composition-excluded but not fully excluded".into());
                }
                let d = norm(&s, Form::Nfd);
                if (d == s) != (dt != "Can") {
                    return Err(format!("unchanged by NFD: {}, decomposition type {dt}", d == s));
                }
                if (norm(&s, Form::Nfkd) == s) != (dt == "None") {
                    return Err(format!("NFKD stability disagrees with decomposition type {dt}"));
                }
                if dt == "Can" {
                    if norm(&dm, Form::Nfd) != d {
                        return Err("NFD of the mapping differs from NFD of the character".into());
                    }
                    // recomposition
                    let back = norm(&dm, Form::Nfc) == s;
                    if back == ex {
                        return Err(format!("mapping recomposes: {back}, fully excluded: {ex}"));
                    }
                }
                if dt != "None" && norm(&dm, Form::Nfkd) != norm(&s, Form::Nfkd) {
                    return Err("NFKD of the mapping differs from NFKD of the character".into());
                }
                let chars: Vec<char> = d.chars().collect();
                if chars.len() > 1 && chars[0].ccc() as u8 != 0 && !ex {
                    return Err("non-starter decomposition not excluded".into());
                }
                Ok(())
            }),
            rnd("normalization-structured", t.pick(250_000, 5_000_000), || norm_text(3, 40), wellformed),
            rnd("short", t.pick(250_000, 5_000_000), || norm_text(1, 12), wellformed),
            rnd("mixed text", t.pick(50_000, 1_000_000), || mixed_text(4, 40), wellformed),
            counted(264, 2048, wellformed),
            rnd_exact("texts of round lengths", t.pick(2_500, 50_000), || scaled_text(4096), wellformed),
            rnd("long runs", t.pick(800, 16_000), || norm_text(4, 300), wellformed),
            successive(t.pick(2, 1), norm_twins(), &[("", ""), ("a", "")], wellformed),
            beside("active characters beside every kind of neighbour", active(), t.pick(9, 1), wellformed),
            very_long(&[8_300, 16_500], &["x", "\u{1D5}", "e\u{301}"], wellformed),
            collisions(t.pick(3, 1), wellformed),
        ],
    }
}

// ------------------------------------------------------------------- C23
fn is_ident(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(|c| c.xids()) && it.all(|c| c.xidc())
}
fn ident_check(c: &Text, o: &mut Obs) -> Result<(), String> {
    let s = c.s();
    if !is_ident(&s) {
        o.class("not an identifier", true);
        return Ok(());
    }
    for f in FORMS {
        let n = norm(&s, f);
        o.nt(n != s);
        if !is_ident(&n) {
            return Err(format!("identifier <{}> has {f:?} <{}>, which is not an identifier", hexs(&c.0), hexs(&n.chars().collect::<Vec<_>>())));
        }
    }
    Ok(())
}
pub fn c23_def(t: Tier) -> CheckDef {
    let nx = pools().xids.len() as u64;
    let nc = pools().xidc.len() as u64;
    let ident = |n: usize| {
        let p = pools();
        let dmx: &'static Vec<char> = {
            static D: OnceLock<Vec<char>> = OnceLock::new();
            D.get_or_init(|| pools().xidc.iter().copied().filter(|c| ucd().dm.contains_key(&(*c as u32)) || ucd().ccc[*c as usize] != 0).collect())
        };
        let sx: &'static Vec<char> = {
            static D: OnceLock<Vec<char>> = OnceLock::new();
            D.get_or_init(|| pools().xids.iter().copied().filter(|c| ucd().dm.contains_key(&(*c as u32))).collect())
        };
        (prop_oneof![2 => from_pool(&p.xids), 3 => from_pool(sx), 1 => from_pool(&p.comp_first)],
         proptest::collection::vec(prop_oneof![2 => from_pool(&p.xidc), 4 => from_pool(dmx), 2 => from_pool(&p.comp_second), 1 => hangul_char()], 0..n))
            .prop_map(|(a, mut v)| { v.insert(0, a); Text(v) })
    };
    CheckDef {
        rule: "cases: every XID_Start character alone, after itself and before marks; every XID_Continue character after a start; random identifiers rich in decomposing characters and marks. Non-trivial: an identifier that some form changes; distinct by content",
        assumptions: &["which characters are tried as starts and continuations comes from oracle/ucd-15.1.0.txt and additionally every code point is tried"],
        sections: vec![
            exh("every scalar: containments, as start and as continuation", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                let x = char::from_u32(c.cp).unwrap();
                let (xs, xc, is, ic) = (x.xids(), x.xidc(), x.ids(), x.idc());
                if xs && !xc { return Err("XID_Start but not XID_Continue".into()); }
                if xs && !is { return Err("XID_Start but not ID_Start".into()); }
                if xc && !ic { return Err("XID_Continue but not ID_Continue".into()); }
                o.weight = 6;
                for t in [vec![x], vec![x, '\u{301}'], vec![x, '\u{338}', '\u{345}'], vec!['a', x], vec!['\u{1100}', x], vec!['\u{3B1}', x, '\u{3099}']] {
                    ident_check(&Text(t), o)?;
                }
                Ok(())
            }),
            exh("start with continuation (sampled grid)", t.pick(2_000_000, 40_000_000), false, false, move |i| {
                let p = pools();
                let k = i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                Some(Text(vec![p.xids[((k >> 20) % nx) as usize], p.xidc[((k >> 5).wrapping_mul(31) % nc) as usize]]))
            }, ident_check),
            rnd("random identifiers", t.pick(300_000, 6_000_000), move || ident(6), ident_check),
            rnd("longer identifiers", t.pick(40_000, 800_000), move || ident(30), ident_check),
        ],
    }
}
