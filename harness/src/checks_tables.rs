//! C11 .. C22, C24, C25: per-code-point properties, enumerated over the whole code space.
use crate::api::*;
use crate::engine::*;
use crate::enums;
use crate::gen::*;
use crate::oracle::*;
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, Ucd};
use std::collections::HashMap;
use std::sync::OnceLock;

fn cps(i: u64) -> Option<Cp> {
    Some(Cp { cp: i as u32 })
}
fn as_char(c: u32) -> Option<char> {
    char::from_u32(c)
}
fn want(what: &str, recv: &str, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} ({recv}) is {got:?}, Unicode 15.1.0 has {want:?}"))
    }
}
fn acc(name: &str) -> &'static Acc {
    ENUMS.iter().find(|a| a.name == name).unwrap()
}
fn enum_eq(a: &Acc, c: u32) -> Result<&'static str, String> {
    let w = ucd().e(a.ucd, c);
    want(a.name, "CodePoint", (a.on_cp)(&cp(c)), w)?;
    if let Some(ch) = as_char(c) {
        want(a.name, "char", (a.on_char)(&ch), w)?;
    }
    Ok(w)
}
fn bin_eq(b: &Bin, c: u32) -> Result<bool, String> {
    let w = ucd().b(b.ucd, c);
    let got = (b.on_cp)(&cp(c));
    if got != w {
        return Err(format!("{} ({}, CodePoint) is {got}, Unicode 15.1.0 has {w}", b.name, b.ucd));
    }
    if let Some(ch) = as_char(c) {
        let got = (b.on_char)(&ch);
        if got != w {
            return Err(format!("{} ({}, char) is {got}, Unicode 15.1.0 has {w}", b.name, b.ucd));
        }
    }
    Ok(w)
}
const RULE: &str = "cases: all 1,114,112 code points, each queried as CodePoint and (if a scalar) as char. Non-trivial: the expected value is not the default of the property; every code point is a distinct case";
const NOTE: &[&str] = &["expected values come from oracle/ucd-15.1.0.txt, which was cross-checked once against ICU 74 (Unicode 15.1)"];

fn enums_def(names: &'static [&'static str], extra: Vec<Box<dyn Section>>) -> CheckDef {
    let accs: Vec<(&'static Acc, &'static str)> = names.iter().map(|n| { let a = acc(n); (a, ucd().enums[a.ucd].vals[0]) }).collect();
    let mut sections = vec![exh("every code point", N as u64, true, true, cps, move |c: &Cp, o| {
        o.weight = accs.len() as u64 * 2;
        for (a, d) in &accs {
            let w = enum_eq(a, c.cp)?;
            o.nt(w != *d);
        }
        Ok(())
    })];
    sections.extend(extra);
    CheckDef { rule: RULE, assumptions: NOTE, sections }
}
fn bins_def(bins: &'static [Bin], extra: Vec<Box<dyn Section>>) -> CheckDef {
    let mut sections = vec![exh("every code point", N as u64, true, true, cps, move |c: &Cp, o| {
        o.weight = bins.len() as u64 * 2;
        for b in bins {
            let w = bin_eq(b, c.cp)?;
            o.nt(w);
        }
        Ok(())
    })];
    sections.extend(extra);
    CheckDef { rule: RULE, assumptions: NOTE, sections }
}

pub fn c11_def() -> CheckDef {
    enums_def(&["gc"], vec![])
}
pub fn c12_def() -> CheckDef {
    CheckDef { rule: RULE, assumptions: NOTE,
        sections: vec![exh("every code point", N as u64, true, true, cps, |c: &Cp, o| {
            let w = ucd().ccc[c.cp as usize];
            let name = ucd().cccabbr[&w];
            o.nt(w != 0);
            o.weight = 4;
            let chk = |v: Ccc, r: &str| {
                if v as u32 != w as u32 {
                    return Err(format!("ccc ({r}) has number {}, Unicode 15.1.0 has {w}", v as u32));
                }
                if enums::ccc(v) != name {
                    return Err(format!("ccc ({r}) is variant {}, want {name}", enums::ccc(v)));
                }
                Ok(())
            };
            chk(cp(c.cp).ccc(), "CodePoint")?;
            if let Some(ch) = as_char(c.cp) {
                chk(ch.ccc(), "char")?;
            }
            Ok(())
        })],
    }
}
pub fn c13_def() -> CheckDef {
    CheckDef {
        rule: "cases: all 1,114,112 code points, type and mapping queried as CodePoint and char, mappings followed to the end. Non-trivial: the code point has a mapping; every code point is a distinct case",
        assumptions: NOTE,
        sections: vec![exh("every code point", N as u64, true, true, cps, |c: &Cp, o| {
            let u = ucd();
            let dt = u.e("dt", c.cp);
            let dm: String = u.dm_of(c.cp).iter().map(|x| char::from_u32(*x).unwrap()).collect();
            o.weight = 4;
            o.nt(!dm.is_empty());
            let p = cp(c.cp);
            want("dt", "CodePoint", enums::dt(p.dt()), dt)?;
            want("dm", "CodePoint", &p.dm(), &dm)?;
            if let Some(ch) = as_char(c.cp) {
                want("dt", "char", enums::dt(ch.dt()), dt)?;
                want("dm", "char", &ch.dm(), &dm)?;
            }
            let got = p.dm();
            if got.is_empty() != (p.dt() == Dt::None) {
                return Err(format!("mapping {got:?} with type {}", enums::dt(p.dt())));
            }
            if got.chars().count() > 18 {
                return Err("mapping longer than 18".into());
            }
            let mut cur: Vec<char> = got.chars().collect();
            for round in 0.. {
                let mut next = vec![];
                for x in &cur {
                    let m = x.dm();
                    if m.is_empty() { next.push(*x) } else { next.extend(m.chars()) }
                }
                if next == cur {
                    break;
                }
                if round > 20 || next.len() > 200 {
                    return Err("following mappings does not terminate".into());
                }
                cur = next;
            }
            Ok(())
        })],
    }
}
pub fn c14_def() -> CheckDef {
    enums_def(&["gcb", "wb"], vec![])
}
pub fn c15_def() -> CheckDef {
    enums_def(&["hst", "insc", "incb"], vec![exh("Indic_Conjunct_Break from the accessors it derives from", N as u64, true, true, cps, |c: &Cp, o| {
        let p = cp(c.cp);
        let s = matches!(p.sc(), Sc::Beng | Sc::Deva | Sc::Gujr | Sc::Mlym | Sc::Orya | Sc::Telu);
        let insc = enums::insc(p.insc());
        let gcb = enums::gcb(p.gcb());
        let w = if s && insc == "Virama" {
            "Linker"
        } else if s && insc == "Consonant" {
            "Consonant"
        } else if gcb == "ZWJ" || (gcb == "EX" && p.ccc() as u8 != 0 && insc != "Virama" && insc != "Consonant") {
            "Extend"
        } else {
            "None"
        };
        o.nt(w != "None");
        let g = enums::incb(p.incb());
        if g != w {
            return Err(format!("incb is {g}, its derivation from sc, InSC, GCB and ccc gives {w}"));
        }
        Ok(())
    })])
}
pub fn c16_def() -> CheckDef {
    enums_def(&["bc"], vec![])
}
pub fn c17_def() -> CheckDef {
    enums_def(&["blk", "sc"], vec![exh("every block is one contiguous range", enums::BLK.len() as u64, true, true, cps, |c: &Cp, o| {
        let (b, alias) = enums::BLK[c.cp as usize];
        o.weight = N as u64;
        if alias == "NB" {
            return Ok(());
        }
        o.nt(true);
        let e = &ucd().enums["blk"];
        let (mut first, mut last, mut n) = (None, 0, 0u32);
        for x in 0..N as u32 {
            if cp(x).blk() == b {
                first.get_or_insert(x);
                last = x;
                n += 1;
            }
        }
        let i = e.idx(alias);
        let wf = e.at.iter().position(|x| *x == i).unwrap() as u32;
        let wl = e.at.iter().rposition(|x| *x == i).unwrap() as u32;
        let Some(f) = first else { return Err(format!("block {alias} has no code points")) };
        if (f, last) != (wf, wl) || n != last - f + 1 {
            return Err(format!("block {alias} spans {f:04X}..{last:04X} with {n} code points, want {wf:04X}..{wl:04X}"));
        }
        Ok(())
    })])
}
pub fn c18_def() -> CheckDef {
    enums_def(&["age"], vec![exh("age exactly when assigned", N as u64, true, true, cps, |c: &Cp, o| {
        let p = cp(c.cp);
        let aged = enums::age(p.age()) != "NA";
        let asg = p.gc() != Gc::Cn || p.nchar();
        o.nt(asg);
        if aged != asg {
            return Err(format!("age {:?}, general category {}, noncharacter {}", enums::age(p.age()), enums::gc(p.gc()), p.nchar()));
        }
        Ok(())
    })])
}
pub fn c19_def() -> CheckDef {
    CheckDef {
        rule: "cases: all 1,114,112 code points, each queried as CodePoint and char; all names compared with each other in 16 groups by hash. Non-trivial: the code point has a name; every code point is a distinct case",
        assumptions: NOTE,
        sections: vec![
            exh("every code point", N as u64, true, true, cps, |c: &Cp, o| {
                let w = ucd().name(c.cp);
                o.weight = 2;
                o.nt(!w.is_empty());
                want("na", "CodePoint", &cp(c.cp).na(), w)?;
                if let Some(ch) = as_char(c.cp) {
                    want("na", "char", &ch.na(), w)?;
                }
                Ok(())
            }),
            exh("names are unique", 16, true, true, cps, |c: &Cp, o| {
                o.weight = N as u64;
                o.nt(true);
                let mut seen: HashMap<String, u32> = HashMap::new();
                for x in 0..N as u32 {
                    let n = cp(x).na();
                    if n.is_empty() || n.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 16 != c.cp {
                        continue;
                    }
                    if let Some(y) = seen.insert(n.clone(), x) {
                        return Err(format!("U+{y:04X} and U+{x:04X} are both named {n:?}"));
                    }
                }
                Ok(())
            }),
        ],
    }
}
pub fn c20_def() -> CheckDef {
    bins_def(PROPLIST, vec![])
}

/// XID_Start / XID_Continue as the closure under NFKC of ID_Start / ID_Continue,
/// computed from the library's own accessors (UAX #31 section 5.1).
fn xid_sets() -> &'static (Vec<bool>, Vec<bool>) {
    static S: OnceLock<(Vec<bool>, Vec<bool>)> = OnceLock::new();
    S.get_or_init(|| {
        fn full(c: u32, out: &mut Vec<u32>, depth: u32) {
            let m = cp(c).dm();
            if (0xAC00..=0xD7A3).contains(&c) || m.is_empty() || depth > 20 {
                out.push(c);
            } else {
                for x in m.chars() {
                    full(x as u32, out, depth + 1);
                }
            }
        }
        let mut s: Vec<bool> = (0..N as u32).map(|c| cp(c).ids()).collect();
        let mut k: Vec<bool> = (0..N as u32).map(|c| cp(c).idc()).collect();
        for c in 0..N as u32 {
            if !k[c as usize] {
                continue;
            }
            let mut d = vec![];
            full(c, &mut d, 0);
            if d == [c] {
                continue;
            }
            if !d.iter().all(|x| cp(*x).idc()) {
                s[c as usize] = false;
                k[c as usize] = false;
            } else if !cp(d[0]).ids() {
                s[c as usize] = false;
            }
        }
        // the four modifications UAX #31 names explicitly
        for c in [0x0E33, 0x0EB3, 0xFF9E, 0xFF9F] {
            s[c] = false;
        }
        (s, k)
    })
}
pub fn c21_def() -> CheckDef {
    bins_def(DERIVED, vec![exh("published derivations from the other accessors", N as u64, true, true, cps, |c: &Cp, o| {
        let p = cp(c.cp);
        let gc = enums::gc(p.gc());
        let wb = enums::wb(p.wb());
        let letter = matches!(gc, "Lu" | "Ll" | "Lt" | "Lm" | "Lo" | "Nl");
        let low = gc == "Ll" || p.olower();
        let up = gc == "Lu" || p.oupper();
        let pat = p.pat_syn() || p.pat_ws();
        let ids = (letter || p.oids()) && !pat;
        let idc = (letter || p.oids() || matches!(gc, "Mn" | "Mc" | "Nd" | "Pc") || p.oidc()) && !pat;
        let (xs, xc) = xid_sets();
        let list = [
            ("math", p.math(), gc == "Sm" || p.omath()),
            ("lower", p.lower(), low),
            ("upper", p.upper(), up),
            ("alpha", p.alpha(), low || up || matches!(gc, "Lt" | "Lm" | "Lo" | "Nl") || p.oalpha()),
            ("cased", p.cased(), low || up || gc == "Lt"),
            ("ci", p.ci(), matches!(gc, "Mn" | "Me" | "Cf" | "Lm" | "Sk") || matches!(wb, "ML" | "MB" | "SQ")),
            ("di", p.di(), (p.odi() || gc == "Cf" || p.vs()) && !p.wspace() && !(0xFFF9..=0xFFFB).contains(&c.cp)
                && !(0x13430..=0x13440).contains(&c.cp) && !p.pcm()),
            ("gr_ext", p.gr_ext(), gc == "Me" || gc == "Mn" || p.ogr_ext()),
            ("ids", p.ids(), ids),
            ("idc", p.idc(), idc),
            ("xids", p.xids(), xs[c.cp as usize]),
            ("xidc", p.xidc(), xc[c.cp as usize]),
        ];
        o.weight = list.len() as u64;
        for (n, got, w) in list {
            o.nt(w);
            if got != w {
                return Err(format!("{n} is {got}, its derivation gives {w}"));
            }
        }
        Ok(())
    })])
}
pub fn c22_def() -> CheckDef {
    bins_def(EMOJI, vec![exh("relations between emoji properties", N as u64, true, true, cps, |c: &Cp, o| {
        let p = cp(c.cp);
        o.nt(p.emoji() || p.ext_pict());
        for (n, v) in [("presentation", p.epres()), ("modifier", p.emod()), ("modifier base", p.ebase())] {
            if v && !p.emoji() {
                return Err(format!("emoji {n} but not emoji"));
            }
        }
        if p.emod() && p.ebase() {
            return Err("modifier and modifier base".into());
        }
        Ok(())
    })])
}

// ------------------------------------------------------------------- C24
/// One named value: an index into all_variants()
fn names_of(prop: &str, alias: &str) -> Option<(&'static str, &'static str)> {
    ucd().aliases.get(prop).and_then(|v| v.iter().find(|x| x.0 == alias)).copied()
}
fn expected_names(prop: &str, alias: &str) -> (String, String) {
    if prop == "age" {
        // PropertyValueAliases has the number as short name for every version
        if let Some((a, f)) = names_of("age", alias) {
            return (a.into(), f.into());
        }
    }
    match names_of(prop, alias) {
        Some((a, f)) => (a.into(), f.into()),
        None => panic!("oracle (src/oracle.rs): no alias {alias} in {prop}"),
    }
}
pub fn c24_def() -> CheckDef {
    let vars = all_variants();
    let nv = vars.len() as u64;
    let vars: &'static Vec<_> = Box::leak(Box::new(vars));
    CheckDef {
        rule: "cases: every value of the 13 value types (names, and difference from all other values of the type), equality and copies of all pairs of values of a type, and every code point with the names of its 12 enumerated values. Non-trivial: a value, or a code point with some non-default value; distinct by value or code point",
        assumptions: NOTE,
        sections: vec![
            exh("every value of every property", nv, true, true, cps, move |c: &Cp, o| {
                o.nt(true);
                let (prop, alias, ab, full) = vars[c.cp as usize];
                let (wa, wf) = expected_names(prop, alias);
                if (ab, full) != (&wa[..], &wf[..]) {
                    return Err(format!("{prop} value {alias}: names are {ab:?}, {full:?}; Unicode 15.1.0 has {wa:?}, {wf:?}"));
                }
                for (i, v) in vars.iter().enumerate() {
                    if i as u32 != c.cp && v.0 == prop && (v.2 == ab || v.3 == full) {
                        return Err(format!("{prop} values {alias} and {} share a name: {:?} {:?}", v.1, (ab, full), (v.2, v.3)));
                    }
                }
                Ok(())
            }),
            exh("equality and copies of all pairs of values", VARIANT_PROPS.len() as u64, true, false, cps, |c: &Cp, o| {
                o.nt(true);
                let p = VARIANT_PROPS[c.cp as usize];
                o.weight = variant_identity(p).map_err(|e| format!("{p} {e}"))?;
                Ok(())
            }),
            exh("names of the values of every code point", N as u64, true, true, cps, |c: &Cp, o| {
                o.weight = NAMED.len() as u64;
                static EXP: OnceLock<HashMap<&'static str, Vec<(String, String)>>> = OnceLock::new();
                let exp = EXP.get_or_init(|| {
                    NAMED.iter().map(|n| {
                        let e = &ucd().enums[n.ucd];
                        (n.ucd, e.vals.iter().map(|v| {
                            let a = if n.ucd == "ccc" { ucd().cccabbr[&v.parse::<u8>().unwrap()] } else { v };
                            expected_names(n.ucd, a)
                        }).collect())
                    }).collect()
                });
                let p = cp(c.cp);
                for n in NAMED {
                    let k = ucd().enums[n.ucd].at[c.cp as usize] as usize;
                    o.nt(k != 0);
                    let (wa, wf) = &exp[n.ucd][k];
                    let g = (n.get)(&p);
                    if (g.abbr, g.full) != (&wa[..], &wf[..]) {
                        return Err(format!("{} value names are {:?}, {:?}; Unicode 15.1.0 has {wa:?}, {wf:?}", n.ucd, g.abbr, g.full));
                    }
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------- C25
pub fn c25_def() -> CheckDef {
    CheckDef {
        rule: "cases: all 1,114,112 code points; all 68 accessors called twice on the CodePoint and, for scalars, on the char. Non-trivial: scalars (two receivers to compare) and surrogates (totality); every code point is a distinct case",
        assumptions: &[],
        sections: vec![exh("every accessor on every code point", N as u64, true, true, cps, |c: &Cp, o| {
            let p = cp(c.cp);
            let ch = as_char(c.cp);
            o.nt(true);
            o.class("surrogate", ch.is_none());
            let bins = || PROPLIST.iter().chain(DERIVED).chain(EMOJI);
            o.weight = 4 * (PROPLIST.len() + DERIVED.len() + EMOJI.len() + ENUMS.len() + 3) as u64;
            let (dm, na, cc) = (p.dm(), p.na(), p.ccc());
            if p.dm() != dm || p.na() != na || p.ccc() != cc {
                return Err("dm, na or ccc changes between calls".into());
            }
            if let Some(x) = ch {
                if x.dm() != dm {
                    return Err(format!("dm: char {:?}, CodePoint {dm:?}", x.dm()));
                }
                if x.na() != na {
                    return Err(format!("na: char {:?}, CodePoint {na:?}", x.na()));
                }
                if x.ccc() != cc {
                    return Err(format!("ccc: char {:?}, CodePoint {cc:?}", x.ccc()));
                }
            }
            for a in ENUMS {
                let v = (a.on_cp)(&p);
                if (a.on_cp)(&p) != v {
                    return Err(format!("{} changes between calls", a.name));
                }
                if let Some(x) = ch {
                    if (a.on_char)(&x) != v {
                        return Err(format!("{}: char {:?}, CodePoint {v:?}", a.name, (a.on_char)(&x)));
                    }
                }
            }
            for b in bins() {
                let v = (b.on_cp)(&p);
                if (b.on_cp)(&p) != v {
                    return Err(format!("{} changes between calls", b.name));
                }
                if let Some(x) = ch {
                    if (b.on_char)(&x) != v {
                        return Err(format!("{}: char {:?}, CodePoint {v:?}", b.name, (b.on_char)(&x)));
                    }
                }
            }
            let q: CodePoint = p;
            if q.to_u32() != c.cp {
                return Err("value changed by copying".into());
            }
            Ok(())
        })],
    }
}
