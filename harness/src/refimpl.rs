//! Reference implementations of UAX #15 and UAX #29 (extended grapheme
//! clusters, Unicode 15.1) over the oracle snapshot only.
use crate::oracle::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}
pub const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
impl Form {
    pub fn compat(self) -> bool {
        matches!(self, Form::Nfkd | Form::Nfkc)
    }
    pub fn composed(self) -> bool {
        matches!(self, Form::Nfc | Form::Nfkc)
    }
}

pub fn decompose(s: &[char], compat: bool) -> Vec<u32> {
    let o = ucd();
    let mut v: Vec<u32> = Vec::with_capacity(s.len() + 8);
    for c in s {
        o.full(*c as u32, compat, &mut v);
    }
    // canonical ordering: stable sort of every maximal run of non-starters
    let mut i = 0;
    while i < v.len() {
        if o.ccc[v[i] as usize] == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && o.ccc[v[j] as usize] != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|c| o.ccc[*c as usize]);
        i = j;
    }
    v
}

/// Canonical composition (D117), textbook single pass.
pub fn compose(v: &[u32]) -> Vec<u32> {
    let o = ucd();
    let mut out: Vec<u32> = Vec::with_capacity(v.len());
    let mut starter: Option<usize> = None; // index in out of last starter
    let mut last_ccc: i32 = -1; // ccc of last char kept after the starter, -1: nothing between
    for &c in v {
        let cc = o.ccc[c as usize] as i32;
        if let Some(si) = starter {
            // C is blocked from L if something between has ccc 0 or >= ccc(C)
            let unblocked = last_ccc == -1 || (last_ccc != 0 && last_ccc < cc);
            if unblocked {
                if let Some(p) = o.compose_pair(out[si], c) {
                    out[si] = p;
                    continue;
                }
            }
        }
        out.push(c);
        if cc == 0 {
            starter = Some(out.len() - 1);
            last_ccc = -1;
        } else {
            last_ccc = cc;
        }
    }
    out
}

pub fn to_chars(v: &[u32]) -> Vec<char> {
    v.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

pub fn normalize(s: &[char], f: Form) -> Vec<char> {
    let d = decompose(s, f.compat());
    if f.composed() {
        to_chars(&compose(&d))
    } else {
        to_chars(&d)
    }
}

// ---------------------------------------------------------------- UAX #29
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum G {
    XX, CN, CR, EX, L, LF, LV, LVT, PP, RI, SM, T, V, ZWJ,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum I {
    None, Consonant, Extend, Linker,
}
/// (Grapheme_Cluster_Break, Extended_Pictographic, Indic_Conjunct_Break)
pub type Cls = (G, bool, I);

pub fn classes() -> &'static Vec<Cls> {
    static C: OnceLock<Vec<Cls>> = OnceLock::new();
    C.get_or_init(|| {
        let o = ucd();
        let g = &o.enums["GCB"];
        let i = &o.enums["InCB"];
        let p = &o.bins["Extended_Pictographic"];
        let gm: Vec<G> = g.vals.iter().map(|v| match *v {
            "XX" => G::XX, "CN" => G::CN, "CR" => G::CR, "EX" => G::EX, "L" => G::L, "LF" => G::LF,
            "LV" => G::LV, "LVT" => G::LVT, "PP" => G::PP, "RI" => G::RI, "SM" => G::SM, "T" => G::T,
            "V" => G::V, "ZWJ" => G::ZWJ, x => panic!("gcb {x}"),
        }).collect();
        let im: Vec<I> = i.vals.iter().map(|v| match *v {
            "None" => I::None, "Consonant" => I::Consonant, "Extend" => I::Extend, "Linker" => I::Linker,
            x => panic!("incb {x}"),
        }).collect();
        (0..N).map(|c| (gm[g.at[c] as usize], p[c], im[i.at[c] as usize])).collect()
    })
}
pub fn cls(c: char) -> Cls {
    classes()[c as usize]
}

/// Is there a boundary between position i-1 and i of `k` (0 < i < len)?
/// Literal reading of GB3..GB999, looking back from the position.
pub fn boundary_decl(k: &[Cls], i: usize) -> bool {
    use G::*;
    let (a, b) = (k[i - 1], k[i]);
    if a.0 == CR && b.0 == LF {
        return false; // GB3
    }
    if matches!(a.0, CN | CR | LF) || matches!(b.0, CN | CR | LF) {
        return true; // GB4 GB5
    }
    if a.0 == L && matches!(b.0, L | V | LV | LVT) {
        return false; // GB6
    }
    if matches!(a.0, LV | V) && matches!(b.0, V | T) {
        return false; // GB7
    }
    if matches!(a.0, LVT | T) && b.0 == T {
        return false; // GB8
    }
    if matches!(b.0, EX | ZWJ) || b.0 == SM || a.0 == PP {
        return false; // GB9 GB9a GB9b
    }
    // GB9c: Consonant [Extend Linker]* Linker [Extend Linker]* x Consonant
    if b.2 == I::Consonant {
        let mut j = i;
        let mut linker = false;
        while j > 0 && matches!(k[j - 1].2, I::Extend | I::Linker) {
            linker |= k[j - 1].2 == I::Linker;
            j -= 1;
        }
        if linker && j > 0 && k[j - 1].2 == I::Consonant {
            return false;
        }
    }
    // GB11: ExtPict Extend* ZWJ x ExtPict
    if b.1 && a.0 == ZWJ {
        let mut j = i - 1;
        while j > 0 && k[j - 1].0 == EX {
            j -= 1;
        }
        if j > 0 && k[j - 1].1 {
            return false;
        }
    }
    // GB12 GB13
    if a.0 == RI && b.0 == RI {
        let mut n = 0;
        let mut j = i;
        while j > 0 && k[j - 1].0 == RI {
            n += 1;
            j -= 1;
        }
        if n % 2 == 1 {
            return false;
        }
    }
    true
}

/// Lengths (in chars) of the clusters, incremental form (linear time).
pub fn clusters(s: &[char]) -> Vec<usize> {
    use G::*;
    let tab = classes();
    let mut out = vec![];
    if s.is_empty() {
        return out;
    }
    let mut start = 0;
    let mut ri = 0usize; // length of RI run ending at previous char
    let mut ep = 0; // 0 none, 1 ExtPict Extend*, 2 ExtPict Extend* ZWJ
    let mut inc = 0; // 0 none, 1 Consonant Extend*, 2 with Linker
    for i in 0..s.len() {
        let b = tab[s[i] as usize];
        if i > 0 {
            let a = tab[s[i - 1] as usize];
            let join = if a.0 == CR && b.0 == LF {
                true
            } else if matches!(a.0, CN | CR | LF) || matches!(b.0, CN | CR | LF) {
                false
            } else {
                (a.0 == L && matches!(b.0, L | V | LV | LVT))
                    || (matches!(a.0, LV | V) && matches!(b.0, V | T))
                    || (matches!(a.0, LVT | T) && b.0 == T)
                    || matches!(b.0, EX | ZWJ | SM)
                    || a.0 == PP
                    || (b.2 == I::Consonant && inc == 2)
                    || (b.1 && ep == 2)
                    || (b.0 == RI && ri % 2 == 1)
            };
            if !join {
                out.push(i - start);
                start = i;
            }
        }
        ri = if b.0 == RI { ri + 1 } else { 0 };
        ep = if b.1 {
            1
        } else if b.0 == EX && ep == 1 {
            1
        } else if b.0 == ZWJ && ep == 1 {
            2
        } else {
            0
        };
        inc = match b.2 {
            I::Consonant => 1,
            I::Extend => inc,
            I::Linker => if inc > 0 { 2 } else { 0 },
            I::None => 0,
        };
    }
    out.push(s.len() - start);
    out
}

/// Self-check of the oracle code: both formulations of UAX #29 agree.
pub fn clusters_decl(s: &[char]) -> Vec<usize> {
    let k: Vec<Cls> = s.iter().map(|c| cls(*c)).collect();
    let mut out = vec![];
    let mut start = 0;
    for i in 1..k.len() {
        if boundary_decl(&k, i) {
            out.push(i - start);
            start = i;
        }
    }
    if !k.is_empty() {
        out.push(k.len() - start);
    }
    out
}
