//! The oracle snapshot (Unicode 15.1.0) and flat lookups over it.
//! Nothing here uses the crate under test.
use std::collections::HashMap;
use std::sync::OnceLock;

pub const N: usize = 0x110000;
static TEXT: &str = include_str!("../../oracle/ucd-15.1.0.txt");

pub struct Enum {
    pub name: &'static str,
    pub vals: Vec<&'static str>,
    pub at: Vec<u16>,
}
impl Enum {
    pub fn get(&self, cp: u32) -> &'static str {
        self.vals[self.at[cp as usize] as usize]
    }
    pub fn idx(&self, v: &str) -> u16 {
        self.vals.iter().position(|x| *x == v).unwrap_or_else(|| panic!("oracle: {} has no {}", self.name, v)) as u16
    }
}

pub struct Oracle {
    pub enums: HashMap<&'static str, Enum>,
    pub bins: HashMap<&'static str, Vec<bool>>,
    /// single-step mapping, Hangul excluded
    pub dm: HashMap<u32, Vec<u32>>,
    pub names: Vec<Option<Box<str>>>,
    pub aliases: HashMap<&'static str, Vec<(&'static str, &'static str)>>,
    pub cccabbr: HashMap<u8, &'static str>,
    // derived conveniences
    pub ccc: Vec<u8>,
    pub canon: Vec<bool>, // dt == Can
    pub comp: HashMap<(u32, u32), u32>,
    pub full_can: HashMap<u32, Vec<u32>>,
    pub full_compat: HashMap<u32, Vec<u32>>,
}

fn hx(s: &str) -> u32 {
    u32::from_str_radix(s, 16).unwrap()
}

pub fn is_scalar(cp: u32) -> bool {
    cp < 0xD800 || (0xE000..0x110000).contains(&cp)
}

pub fn hangul_split(s: u32) -> Option<(u32, u32)> {
    if !(0xAC00..=0xD7A3).contains(&s) {
        return None;
    }
    let i = s - 0xAC00;
    if i % 28 == 0 {
        Some((0x1100 + i / 588, 0x1161 + (i % 588) / 28))
    } else {
        Some((s - i % 28, 0x11A7 + i % 28))
    }
}

impl Oracle {
    fn load() -> Oracle {
        let mut enums: HashMap<&'static str, Enum> = HashMap::new();
        let mut bins: HashMap<&'static str, Vec<bool>> = HashMap::new();
        let mut dm = HashMap::new();
        let mut names: Vec<Option<Box<str>>> = vec![None; N];
        let mut aliases: HashMap<&'static str, Vec<(&'static str, &'static str)>> = HashMap::new();
        let mut cccabbr = HashMap::new();
        let mut sec: Vec<&'static str> = vec![];
        let mut vmap: HashMap<&'static str, u16> = HashMap::new();
        for l in TEXT.lines() {
            if let Some(h) = l.strip_prefix('@') {
                sec = h.split(' ').collect();
                match sec[0] {
                    "enum" => {
                        vmap.clear();
                        vmap.insert(sec[2], 0);
                        enums.insert(sec[1], Enum { name: sec[1], vals: vec![sec[2]], at: vec![0; N] });
                    }
                    "bin" => {
                        bins.insert(sec[1], vec![false; N]);
                    }
                    "names" => {
                        aliases.insert(sec[1], vec![]);
                    }
                    _ => {}
                }
                continue;
            }
            match sec[0] {
                "enum" => {
                    let mut f = l.splitn(3, ' ');
                    let (a, b, v) = (hx(f.next().unwrap()), hx(f.next().unwrap()), f.next().unwrap());
                    let e = enums.get_mut(sec[1]).unwrap();
                    let i = *vmap.entry(v).or_insert_with(|| {
                        e.vals.push(v);
                        (e.vals.len() - 1) as u16
                    });
                    e.at[a as usize..=b as usize].fill(i);
                }
                "bin" => {
                    let (a, b) = l.split_once(' ').unwrap();
                    bins.get_mut(sec[1]).unwrap()[hx(a) as usize..=hx(b) as usize].fill(true);
                }
                "dm" => {
                    let mut f = l.split(' ');
                    let c = hx(f.next().unwrap());
                    dm.insert(c, f.map(hx).collect::<Vec<_>>());
                }
                "na" => {
                    let mut f = l.splitn(3, ' ');
                    let (a, b, v) = (hx(f.next().unwrap()), hx(f.next().unwrap()), f.next().unwrap());
                    for c in a..=b {
                        let n = match v.strip_prefix('*') {
                            Some(p) => format!("{}{:04X}", p, c),
                            None => v.to_string(),
                        };
                        names[c as usize] = Some(n.into_boxed_str());
                    }
                }
                "cccabbr" => {
                    let (a, b) = l.split_once(' ').unwrap();
                    cccabbr.insert(a.parse().unwrap(), b);
                }
                "names" => {
                    let (a, b) = l.split_once(' ').unwrap();
                    aliases.get_mut(sec[1]).unwrap().push((a, b));
                }
                _ => panic!("oracle section {:?}", sec),
            }
        }
        let ccc: Vec<u8> = {
            let e = &enums["ccc"];
            let nums: Vec<u8> = e.vals.iter().map(|v| v.parse().unwrap()).collect();
            e.at.iter().map(|i| nums[*i as usize]).collect()
        };
        let canon: Vec<bool> = {
            let e = &enums["dt"];
            e.at.iter().map(|i| e.vals[*i as usize] == "Can").collect()
        };
        let mut comp = HashMap::new();
        let excl = &bins["Full_Composition_Exclusion"];
        for (c, d) in &dm {
            if canon[*c as usize] && !excl[*c as usize] {
                assert_eq!(d.len(), 2);
                comp.insert((d[0], d[1]), *c);
            }
        }
        let mut o = Oracle { enums, bins, dm, names, aliases, cccabbr, ccc, canon, comp, full_can: HashMap::new(), full_compat: HashMap::new() };
        let keys: Vec<u32> = o.dm.keys().copied().collect();
        let mut fc = HashMap::new();
        let mut fk = HashMap::new();
        for c in keys {
            let mut v = vec![];
            o.expand(c, false, &mut v);
            fc.insert(c, v);
            let mut v = vec![];
            o.expand(c, true, &mut v);
            fk.insert(c, v);
        }
        o.full_can = fc;
        o.full_compat = fk;
        o
    }

    /// Depth-first definition of full decomposition, straight from the mappings.
    fn expand(&self, c: u32, compat: bool, out: &mut Vec<u32>) {
        if let Some((a, b)) = hangul_split(c) {
            self.expand(a, compat, out);
            out.push(b);
            return;
        }
        if let Some(d) = self.dm.get(&c) {
            if compat || self.canon[c as usize] {
                for x in d {
                    self.expand(*x, compat, out);
                }
                return;
            }
        }
        out.push(c);
    }

    pub fn e(&self, p: &str, cp: u32) -> &'static str {
        self.enums[p].get(cp)
    }
    pub fn b(&self, p: &str, cp: u32) -> bool {
        self.bins[p][cp as usize]
    }
    pub fn name(&self, cp: u32) -> &str {
        self.names[cp as usize].as_deref().unwrap_or("")
    }
    pub fn dm_of(&self, cp: u32) -> Vec<u32> {
        if let Some((a, b)) = hangul_split(cp) {
            return vec![a, b];
        }
        self.dm.get(&cp).cloned().unwrap_or_default()
    }
    pub fn full(&self, c: u32, compat: bool, out: &mut Vec<u32>) {
        if let Some((a, b)) = hangul_split(c) {
            if let Some((l, v)) = hangul_split(a) {
                out.extend([l, v, b]);
            } else {
                out.extend([a, b]);
            }
            return;
        }
        match if compat { self.full_compat.get(&c) } else { self.full_can.get(&c) } {
            Some(d) => out.extend_from_slice(d),
            None => out.push(c),
        }
    }
    pub fn compose_pair(&self, a: u32, b: u32) -> Option<u32> {
        if (0x1100..=0x1112).contains(&a) && (0x1161..=0x1175).contains(&b) {
            return Some(0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28);
        }
        if (0xAC00..=0xD7A3).contains(&a) && (a - 0xAC00) % 28 == 0 && (0x11A8..=0x11C2).contains(&b) {
            return Some(a + (b - 0x11A7));
        }
        self.comp.get(&(a, b)).copied()
    }
}

pub fn ucd() -> &'static Oracle {
    static O: OnceLock<Oracle> = OnceLock::new();
    O.get_or_init(Oracle::load)
}
