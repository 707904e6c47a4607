//! C01, C02, C03
use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::refimpl::*;
use crate::stress::*;
use seshat::unicode::Segmentation;

fn show(s: &[char], lens: &[usize]) -> String {
    let mut out = String::new();
    let mut i = 0;
    for l in lens {
        if i > 0 {
            out.push_str(" ÷ ");
        }
        let e = (i + l).min(s.len());
        out.push_str(&hexs(&s[i.min(e)..e]));
        i += l;
    }
    out
}

// ------------------------------------------------------------------- C01
fn partition(s: &str) -> Result<Vec<(usize, usize)>, String> {
    let cap = s.chars().count();
    let base = s.as_ptr() as usize;
    let mut it = s.break_graphemes();
    let mut pos = 0;
    let mut items = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        let Some(g) = it.next() else {
            if lo > 0 {
                return Err(format!("size_hint promised {lo} more items at the end"));
            }
            break;
        };
        if hi == Some(0) {
            return Err("size_hint said no item was left, but one came".into());
        }
        if g.is_empty() {
            return Err(format!("empty item at byte {pos}"));
        }
        let at = g.as_ptr() as usize;
        if at != base + pos {
            return Err(format!("item {} does not continue at byte {pos} of the input (address offset {})", items.len(), at.wrapping_sub(base) as isize));
        }
        if pos + g.len() > s.len() {
            return Err("item reaches beyond the input".into());
        }
        if &s[pos..pos + g.len()] != g {
            return Err("item text differs from input range".into());
        }
        items.push((pos, g.len()));
        pos += g.len();
        if items.len() > cap {
            return Err(format!("more than {cap} items"));
        }
    }
    if pos != s.len() {
        return Err(format!("iteration ended at byte {pos} of {}", s.len()));
    }
    for k in 0..3 {
        if it.next().is_some() {
            return Err(format!("item after the end (call {k})"));
        }
    }
    Ok(items)
}

fn c01(c: &TextOps, o: &mut Obs) -> Result<(), String> {
    let s = c.t.s();
    let items = partition(&s)?;
    let n = items.len();
    o.nt(s.chars().count() > 1);
    o.class("empty", s.is_empty());
    o.class("multi-char cluster", items.iter().any(|x| s[x.0..x.0 + x.1].chars().count() > 1));
    o.class("cluster over 64 chars", items.iter().any(|x| s[x.0..x.0 + x.1].chars().count() > 64));
    o.class("unassigned or special", c.t.0.iter().any(|c| ucd().e("gc", *c as u32) == "Cn"));
    // other ways of driving it
    let want: Vec<&str> = items.iter().map(|x| &s[x.0..x.0 + x.1]).collect();
    let it = || s.break_graphemes();
    if it().count() != n {
        return Err("count() differs from stepping".into());
    }
    if it().last() != want.last().copied() {
        return Err("last() differs from stepping".into());
    }
    if it().fold(0usize, |a, g| a + g.len()) != s.len() {
        return Err("fold over lengths differs".into());
    }
    let (lo, hi) = it().size_hint();
    if lo > n || hi.is_some_and(|h| h < n) {
        return Err(format!("size_hint ({lo},{hi:?}) excludes the true count {n}"));
    }
    let mut pushed = vec![];
    it().for_each(|g| pushed.push(g));
    if pushed != want {
        return Err("for_each() differs from stepping".into());
    }
    // bounded, so that an iterator without an end is reported instead of filling memory
    if it().take(n + 1).collect::<Vec<_>>() != want || it().take(n + 1).collect::<String>() != *s {
        return Err("collecting differs from stepping".into());
    }
    if !it().eq(want.iter().copied()) || it().ne(it()) {
        return Err("eq() differs from stepping".into());
    }
    let mut both = vec![];
    let (mut x, mut y) = (it(), it());
    loop {
        // two iterators over the same text advance independently
        let (a, b) = (x.next(), y.next());
        if a != b || both.len() > n {
            return Err("two iterators over one string differ".into());
        }
        let Some(a) = a else { break };
        both.push(a);
    }
    if both != want {
        return Err("interleaved iteration differs from stepping".into());
    }
    for &k in &c.ops {
        let k = k as usize % (n + 2);
        let step = 1 + k % 4;
        let st: Vec<&str> = it().step_by(step).take(n + 1).collect();
        if !st.iter().copied().eq(want.iter().copied().step_by(step)) {
            return Err(format!("step_by({step}) differs"));
        }
        if let Some(w) = want.get(k) {
            let at = want.iter().position(|g| g == w);
            if it().position(|g| g == *w) != at || it().find(|g| g == w) != Some(*w) || it().any(|g| g == *w) != true {
                return Err(format!("searching for item {k} differs"));
            }
        }
        let mut pk = it().peekable();
        for j in 0..k.min(n) {
            if pk.peek() != want.get(j) || pk.next() != want.get(j).copied() {
                return Err(format!("peeking at item {j} differs"));
            }
        }
        if pk.count() != n - k.min(n) {
            return Err(format!("count() after {k} items differs"));
        }
        let mut i3 = it();
        for _ in 0..k.min(n) {
            i3.next();
        }
        let (lo, hi) = i3.size_hint();
        if lo > n - k.min(n) || hi.is_some_and(|h| h < n - k.min(n)) {
            return Err(format!("size_hint ({lo},{hi:?}) after {k} items excludes the true rest"));
        }
        if i3.last() != (if k < n { want.last().copied() } else { None }) {
            return Err(format!("last() after {k} items differs"));
        }
        let mut i1 = it();
        if i1.nth(k) != want.get(k).copied() {
            return Err(format!("nth({k}) differs from stepping"));
        }
        if k < n && i1.next() != want.get(k + 1).copied() {
            return Err(format!("item after nth({k}) differs"));
        }
        let mut i2 = it();
        let a: Vec<&str> = i2.by_ref().take(k).collect();
        let b: Vec<&str> = i2.take(n + 1).collect();
        if a[..] != want[..k.min(n)] || b[..] != want[k.min(n)..] {
            return Err(format!("resuming after {k} items differs"));
        }
        let sk: Vec<&str> = it().skip(k).take(n + 1).collect();
        if sk[..] != want[k.min(n)..] {
            return Err(format!("skip({k}) differs"));
        }
    }
    Ok(())
}

fn ops() -> impl proptest::strategy::Strategy<Value = Vec<u32>> {
    proptest::collection::vec(proptest::num::u32::ANY, 0..4)
}

pub fn c01_def(t: Tier) -> CheckDef {
    use proptest::strategy::Strategy;
    CheckDef {
        rule: "cases: every code point alone and between others; random segment-structured, normalization-structured and arbitrary strings with random iterator manoeuvres; very long strings. Non-trivial: more than one character in the string; distinct by content",
        assumptions: &["a call that has used 60 s of CPU time without returning is taken as never returning"],
        sections: vec![
            exh("every scalar alone, doubled, and in context", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                let ch = char::from_u32(c.cp).unwrap();
                let mut buf = String::new();
                o.weight = 8;
                o.nt(true);
                for (a, b) in [("", ""), ("a", ""), ("", "a"), ("\u{915}\u{94d}", "\u{915}"), ("\u{1F469}", "\u{200D}\u{1F469}"), ("\u{1F1E6}", "\u{1F1E6}"), ("\r", "\n"), ("\u{0600}", "\u{0308}")] {
                    buf.clear();
                    buf.push_str(a);
                    buf.push(ch);
                    if a.is_empty() && b.is_empty() { } else if a.is_empty() { buf.push(ch); }
                    buf.push_str(b);
                    partition(&buf).map_err(|e| format!("in <{}>: {e}", hexs(&buf.chars().collect::<Vec<_>>())))?;
                }
                Ok(())
            }),
            {
                let (n, f) = around_special(1);
                exh("special characters between all classes", n, false, true, f, |c: &Text, o| {
                    o.nt(true);
                    partition(&c.s()).map(|_| ())
                })
            },
            rnd("segmentation-structured", t.pick(160_000, 3_000_000), || (seg_text(4, 300), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c01),
            rnd("mixed", t.pick(60_000, 1_000_000), || (mixed_text(5, 64), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c01),
            counted_seg(70, 520, |c: &Text, o| {
                o.nt(true);
                partition(&c.s()).map(|_| ())
            }),
            rnd("long", t.pick(1_200, 20_000), || (seg_text(12, 1025), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c01),
            exh("runs of one class beyond 16-bit lengths", pools().seg.len() as u64 * 2, false, true, |i| {
                let p = &pools().seg[i as usize / 2].1;
                Some(Cp2 { a: p[0] as u32, b: p[p.len() - 1] as u32, n: if i % 2 == 0 { 66_000 } else { 140_001 } })
            }, |c: &Cp2, o| {
                o.nt(true);
                let mut s = String::new();
                s.push('a');
                for i in 0..c.n {
                    s.push(char::from_u32(if i % 2 == 0 { c.a } else { c.b }).unwrap());
                }
                s.push('b');
                partition(&s).map(|_| ())
            }),
        ],
    }
}

#[derive(Clone, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct Cp2 {
    pub a: u32,
    pub b: u32,
    pub n: u32,
}
impl Case for Cp2 {
    fn simpler(&self) -> Vec<Self> {
        let mut v = vec![];
        for n in [self.n / 2, self.n - self.n / 8, self.n.saturating_sub(1)] {
            if n < self.n && n > 0 {
                v.push(Cp2 { n, ..self.clone() });
            }
        }
        v
    }
}

// ------------------------------------------------------------------- C02
fn conform(chars: &[char], s: &str) -> Result<Vec<usize>, String> {
    let want = clusters(chars);
    let got = seg(s)?;
    if got != want {
        return Err(format!("boundaries differ: got {} want {}", show(chars, &got), show(chars, &want)));
    }
    Ok(want)
}

fn c02(c: &Text, o: &mut Obs) -> Result<(), String> {
    let s = c.s();
    let l = conform(&c.0, &s)?;
    let k: Vec<Cls> = c.0.iter().map(|c| cls(*c)).collect();
    o.nt(l.len() >= 1 && l.len() < c.0.len());
    o.class("GB9c join", (1..k.len()).any(|i| k[i].2 == I::Consonant && !boundary_decl(&k, i) && k[i - 1].0 != G::PP));
    o.class("Linker before Consonant, broken", (1..k.len()).any(|i| k[i].2 == I::Consonant && matches!(k[i - 1].2, I::Linker | I::Extend) && boundary_decl(&k, i)));
    o.class("GB11 join", (1..k.len()).any(|i| k[i].1 && k[i - 1].0 == G::ZWJ && !boundary_decl(&k, i)));
    o.class("ZWJ before ExtPict, broken", (1..k.len()).any(|i| k[i].1 && k[i - 1].0 == G::ZWJ && boundary_decl(&k, i)));
    o.class("3+ RI", k.windows(3).any(|w| w.iter().all(|x| x.0 == G::RI)));
    o.class("Hangul join", k.windows(2).any(|w| matches!(w[0].0, G::L | G::V | G::LV | G::LVT) && matches!(w[1].0, G::L | G::V | G::T)));
    o.class("Prepend", k.iter().any(|x| x.0 == G::PP));
    o.class("cluster over 100", l.iter().any(|x| *x > 100));
    Ok(())
}

/// class member, special character, class member; members vary with the index
fn around_special(seed: u64) -> (u64, impl Fn(u64) -> Option<Text> + Send + Sync) {
    let p = pools();
    let (k, n) = (p.seg.len() as u64, p.special.len() as u64);
    // each class by a few members: the first, the last, one from each plane and one at random
    let mut reps: Vec<char> = vec![];
    for (_, m) in &p.seg {
        let mut r = vec![m[0], m[m.len() - 1], m[(seed as usize).wrapping_mul(7919) % m.len()]];
        for pl in 0..17u32 {
            let a = m.partition_point(|c| (*c as u32) < pl << 16);
            if a < m.len() && m[a] as u32 >> 16 == pl {
                r.push(m[a]);
            }
        }
        r.sort();
        r.dedup();
        reps.extend(r);
    }
    let r = reps.len() as u64;
    let _ = k;
    (r * n * r, move |i| Some(Text(vec![reps[(i % r) as usize], pools().special[(i / r % n) as usize], reps[(i / r / n) as usize]])))
}
/// every sequence of class indices of length `len`; members vary with the index and seed
fn class_seq(i: u64, len: u32, seed: u64) -> Text {
    let p = &pools().seg;
    let n = p.len() as u64;
    let mut v = vec![];
    let mut x = i;
    let mut h = i ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for _ in 0..len {
        let m = &p[(x % n) as usize].1;
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.push(m[(h >> 33) as usize % m.len()]);
        x /= n;
    }
    Text(v)
}
fn pow(n: u64, k: u32) -> u64 {
    n.pow(k)
}

pub fn templates() -> &'static Vec<(String, String)> {
    static T: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<(String, String)> = vec![(String::new(), String::new())];
        for (_, m) in &pools().seg {
            let r = m[m.len() / 2].to_string();
            v.push((r.clone(), String::new()));
            v.push((String::new(), r));
        }
        let c = "\u{915}";
        let l = "\u{94D}";
        let e = "\u{1F469}";
        for (a, b) in [
            (e.into(), "\u{200D}\u{1F469}".into()),
            (format!("{e}\u{200D}"), String::new()),
            (format!("{e}\u{200D}"), e.into()),
            (format!("{e}\u{0308}"), format!("\u{200D}{e}")),
            (c.into(), format!("{l}{c}")),
            (format!("{c}{l}"), String::new()),
            (format!("{c}{l}"), c.into()),
            (format!("{c}\u{93C}"), format!("{l}{c}")),
            (c.into(), c.into()),
            (l.into(), c.into()),
            ("\u{1F1E6}".into(), "\u{1F1E7}".into()),
            ("\u{1F1E6}\u{1F1E6}".into(), "\u{1F1E6}".into()),
            ("\u{1F1E6}".into(), "\u{1F1E6}\u{1F1E6}".into()),
            ("\u{1100}".into(), "\u{11A8}".into()),
            ("\u{0600}".into(), "\u{0301}".into()),
            ("\r".into(), "\n".into()),
        ] {
            v.push((a, b));
        }
        v
    })
}

pub fn c02_def(t: Tier, seed: u64) -> CheckDef {
    let k = pools().seg.len() as u64;
    let mut sections: Vec<Box<dyn Section>> = vec![];
    for len in 1..=t.pick(6, 7) as u32 {
        let reps = if len <= 2 { 64 } else if len == 3 { 8 } else { 1 };
        sections.push(exh(&format!("all class sequences of length {len}"), pow(k, len) * reps, true, reps == 1, move |i| {
            Some(class_seq(i % pow(k, len), len, seed.wrapping_add(i / pow(k, len))))
        }, c02));
    }
    sections.push(exh("every scalar in every class context", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
        let x = char::from_u32(c.cp).unwrap();
        o.weight = templates().len() as u64;
        o.nt(true);
        let mut s = String::new();
        let mut v: Vec<char> = vec![];
        for (a, b) in templates() {
            s.clear();
            s.push_str(a);
            s.push(x);
            s.push_str(b);
            v.clear();
            v.extend(s.chars());
            conform(&v, &s)?;
        }
        Ok(())
    }));
    let cons: Vec<char> = pools().seg.iter().filter(|x| x.0 .2 == I::Consonant).flat_map(|x| x.1.clone()).collect();
    let link: Vec<char> = pools().seg.iter().filter(|x| x.0 .2 == I::Linker).flat_map(|x| x.1.clone()).collect();
    let (nc, nl) = (cons.len() as u64, link.len() as u64);
    sections.push(exh("every consonant, linker, consonant", nc * nl * nc, true, true, move |i| {
        Some(Text(vec![cons[(i % nc) as usize], link[(i / nc % nl) as usize], cons[(i / nc / nl) as usize]]))
    }, c02));
    let ep: Vec<char> = pools().seg.iter().filter(|x| x.0 .1).flat_map(|x| x.1.clone()).collect();
    let ne = ep.len() as u64;
    let step = t.pick(7, 1);
    sections.push(exh("pictographic ZWJ pictographic pairs", ne * ne / step, step == 1, true, move |i| {
        let i = i * step + seed % step;
        (i < ne * ne).then(|| Text(vec![ep[(i % ne) as usize], '\u{200D}', ep[(i / ne) as usize]]))
    }, c02));
    let (n, f) = around_special(seed);
    sections.push(exh("special characters between all classes", n, false, true, f, c02));
    sections.push(beside("everything with a break class beside every kind of neighbour", break_active(), t.pick(3, 1), c02));
    sections.push(successive(t.pick(2, 1), seg_twins(), &[("", ""), ("\u{1F469}", "\u{200D}\u{1F469}"), ("\u{915}", "\u{94D}\u{915}"), ("\u{1100}", "\u{1161}\u{1F1E6}")], c02));
    sections.push(rnd("structured clusters", t.pick(500_000, 8_000_000), || seg_text(4, 300), c02));
    sections.push(rnd("single cluster families", t.pick(300_000, 5_000_000), || seg_text(1, 40), c02));
    sections.push(rnd("mixed text", t.pick(60_000, 1_000_000), || mixed_text(5, 64), c02));
    sections.push(counted_seg(t.pick(140, 300) as usize, 1100, c02));
    sections.push(rnd("long", t.pick(2_000, 30_000), || seg_text(12, 1025), c02));
    sections.push(exh("very long runs", k * k, true, true, move |i| {
        Some(Cp2 { a: pools().seg[(i / k) as usize].1[0] as u32, b: pools().seg[(i % k) as usize].1[0] as u32, n: if i % 5 == 0 { 66_001 } else { 4_099 } })
    }, |c: &Cp2, o| {
        o.nt(true);
        let a = char::from_u32(c.a).unwrap();
        let b = char::from_u32(c.b).unwrap();
        // a^n b a b b : a long run, then what follows it
        let mut v = vec![a; c.n as usize];
        v.extend([b, a, b, b]);
        let s: String = v.iter().collect();
        let want = clusters(&v);
        let got = seg(&s)?;
        if got != want {
            let k = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            return Err(format!("cluster {k} of {:04X}*{} {:04X}.. has length {:?}, want {:?}", c.a, c.n, c.b, got.get(k), want.get(k)));
        }
        Ok(())
    }));
    CheckDef {
        rule: "cases: every sequence of break classes up to the bound, every scalar in every class context, every consonant-linker-consonant triple, pictographic ZWJ pairs, structured random clusters, long runs; judged against an independent UAX #29 implementation. Non-trivial: at least one character joined to the previous one (contexts and long runs count as such); distinct by content",
        assumptions: &["oracle/ucd-15.1.0.txt is Unicode 15.1 (cross-checked against ICU 74.2 when built)"],
        sections,
    }
}

// ------------------------------------------------------------------- C03
fn c03(c: &TextOps, o: &mut Obs) -> Result<(), String> {
    let s = c.t.s();
    let items: Vec<String> = seg_items(&s)?.into_iter().map(String::from).collect();
    o.nt(items.len() >= 2 && items.iter().any(|g| g.chars().count() > 1));
    o.class("4+ clusters", items.len() >= 4);
    let mut at = vec![0];
    for g in &items {
        at.push(at.last().unwrap() + g.len());
        let again = seg_items(g)?;
        if again.len() != 1 {
            return Err(format!("cluster <{}> taken alone splits into {}", hexs(&g.chars().collect::<Vec<_>>()), again.len()));
        }
    }
    if *at.last().unwrap() != s.len() {
        return Err("items do not cover the string".into());
    }
    // restart from boundaries, prefix up to boundaries
    let pts: Vec<usize> = if items.len() <= 12 { (0..at.len()).collect() } else { c.ops.iter().map(|x| *x as usize % at.len()).collect() };
    for k in pts {
        let rest = seg_items(&s[at[k]..])?;
        if rest.iter().ne(items[k..].iter()) {
            return Err(format!("restarting at cluster {k} (byte {}) gives other clusters", at[k]));
        }
        let pre = seg_items(&s[..at[k]])?;
        if pre.iter().ne(items[..k].iter()) {
            return Err(format!("the prefix of {k} clusters (byte {}) segments differently", at[k]));
        }
    }
    // line breaks around
    let wrapped = format!("\n{s}\n");
    let w = seg_items(&wrapped)?;
    let mut want: Vec<&str> = vec!["\n"];
    want.extend(items.iter().map(|x| x.as_str()));
    if s.ends_with('\r') {
        want.pop();
        want.push("\r\n");
    } else {
        want.push("\n");
    }
    if w != want {
        return Err("putting line breaks around the text changes its clusters".into());
    }
    // joined at a control character, in a bigger buffer at another address
    let pad = c.ops.first().copied().unwrap_or(3) as usize % 17;
    let ctl = ["\u{1}", "\u{200B}", "\u{2028}", "\u{AD}", "\u{7F}"][c.ops.get(1).copied().unwrap_or(0) as usize % 5];
    let cut = at[c.ops.get(2).copied().unwrap_or(1) as usize % at.len()];
    let (x, y) = s.split_at(cut);
    let big = format!("{}{y}{ctl}{x}{ctl}{s}", "x".repeat(pad));
    let sub = &big[pad..];
    let got = seg_items(sub)?;
    let mut want: Vec<String> = seg_items(y)?.into_iter().map(String::from).collect();
    want.push(ctl.into());
    want.extend(seg_items(x)?.into_iter().map(String::from));
    want.push(ctl.into());
    want.extend(items.iter().cloned());
    if got.iter().ne(want.iter()) {
        return Err(format!("joining parts at a control character changes clusters: {:?} vs {:?}",
            got.iter().map(|g| hexs(&g.chars().collect::<Vec<_>>())).collect::<Vec<_>>(), want.iter().map(|g| hexs(&g.chars().collect::<Vec<_>>())).collect::<Vec<_>>()));
    }
    Ok(())
}

pub fn c03_def(t: Tier, seed: u64) -> CheckDef {
    use proptest::strategy::Strategy;
    let k = pools().seg.len() as u64;
    let ops = || proptest::collection::vec(proptest::num::u32::ANY, 3..9);
    CheckDef {
        rule: "cases: all class sequences of length 5 (thorough: 6), structured random strings with random cut points, paddings and control characters; the crate is compared with itself on parts and embeddings. Non-trivial: at least two clusters, one of them longer than one character; distinct by content",
        assumptions: &[],
        sections: vec![
            exh("all class sequences of a length", pow(k, t.pick(5, 6) as u32), true, true, move |i| {
                Some(TextOps { t: class_seq(i, t.pick(5, 6) as u32, seed), ops: vec![i as u32 % 17, (i / 3) as u32 % 5, (i / 7) as u32 % 5] })
            }, c03),
            {
                let (n, f) = around_special(seed);
                exh("special characters between all classes", n, false, true, move |i| f(i).map(|t| TextOps { t, ops: vec![i as u32 % 17, (i / 3) as u32 % 5, (i / 7) as u32 % 5] }), c03)
            },
            rnd("structured clusters", t.pick(250_000, 4_000_000), move || (seg_text(4, 130), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c03),
            rnd("mixed text", t.pick(60_000, 1_000_000), move || (mixed_text(4, 40), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c03),
            counted_seg(t.pick(36, 140) as usize, 300, |c: &Text, o| {
                let k = c.0.len() as u32;
                c03(&TextOps { t: c.clone(), ops: vec![k % 17, k % 5, k % 7, k / 2, k / 3] }, o)
            }),
            rnd("long", t.pick(1_000, 16_000), move || (seg_text(10, 1025), ops()).prop_map(|(t, ops)| TextOps { t, ops }), c03),
        ],
    }
}

// ------------------------------------------------------------------- C36
/// Some characters have another break class than their decomposition (U+21AE is
/// no pictograph, U+2194 is; U+0CC0 is a spacing mark, its parts are extenders),
/// so UAX #29 itself now and then gives equivalent texts other clusters.
fn excepted(v: &[char], f: crate::refimpl::Form) -> bool {
    use crate::refimpl::normalize;
    let pieces = |v: &[char]| {
        let mut rest = v;
        clusters(v).into_iter().map(|n| {
            let (a, b) = rest.split_at(n);
            rest = b;
            a.to_vec()
        }).collect::<Vec<_>>()
    };
    pieces(&normalize(v, f)) != pieces(v).iter().map(|g| normalize(g, f)).collect::<Vec<_>>()
}
fn c36(c: &Text, o: &mut Obs) -> Result<(), String> {
    use crate::refimpl::Form;
    use seshat::unicode::Normalization;
    let s = c.s();
    let items = seg_items(&s)?;
    let mut any = false;
    for f in [Form::Nfd, Form::Nfc] {
        let norm = |x: &str| if f == Form::Nfd { x.to_nfd() } else { x.to_nfc() };
        let whole = norm(&s);
        any |= whole != s;
        let w = seg_items(&whole)?;
        let parts: Vec<String> = items.iter().map(|g| norm(g)).collect();
        if w.iter().ne(parts.iter()) {
            if excepted(&c.0, f) {
                o.class("UAX #29 itself differs", true);
                continue;
            }
            let h = |x: &str| hexs(&x.chars().collect::<Vec<_>>());
            return Err(format!("{f:?}: clusters of the normalized text {:?}, normalized clusters {:?}", w.iter().map(|g| h(g)).collect::<Vec<_>>(), parts.iter().map(|g| h(g)).collect::<Vec<_>>()));
        }
    }
    o.nt(any);
    o.class("normalization changes the text", any);
    o.class("2+ clusters", items.len() > 1);
    Ok(())
}
pub fn c36_def(t: Tier) -> CheckDef {
    use proptest::strategy::Strategy;
    let p = pools();
    let na = p.norm_active.len() as u64;
    let k = p.seg.len() as u64;
    CheckDef {
        rule: "cases: every scalar between all pairs of break classes and in contexts, all pairs of normalization-active characters, structured random strings; the crate's segmentation and normalization are compared with each other. Non-trivial: NFC or NFD changes the string; distinct by content",
        assumptions: &["texts for which the rules of UAX #29 themselves give other clusters after normalization are left out (a few characters, such as U+21AE and U+0CC0, have another break class than their parts)"],
        sections: vec![
            exh("every normalization-active character between all pairs of classes", na * k * k, true, true, move |i| {
                let p = pools();
                let pick = |j: u64| { let v = &p.seg[(j % k) as usize].1; v[(i % v.len() as u64) as usize] };
                Some(Text(vec![pick(i / na), p.norm_active[(i % na) as usize], pick(i / na / k)]))
            }, c36),
            exh("every scalar in contexts", N as u64, true, true, |i| is_scalar(i as u32).then_some(Cp { cp: i as u32 }), |c: &Cp, o| {
                let x = char::from_u32(c.cp).unwrap();
                let mut nt = false;
                for (a, b) in [("", ""), ("a", "\u{323}\u{301}"), ("\u{915}\u{93C}\u{94D}\u{334}", "\u{915}"), ("\u{1F469}\u{301}\u{323}", "\u{200D}\u{1F469}"), ("\u{1F469}", "\u{1F469}"), ("\u{1100}", "\u{11A8}"), ("\u{1F1E6}", "\u{301}\u{1F1E6}"), ("\r", "\u{301}\u{334}"), ("\u{600}", "\u{E9}")] {
                    let t: Text = Text(a.chars().chain([x]).chain(b.chars()).collect());
                    let mut oo = Obs::default();
                    c36(&t, &mut oo).map_err(|e| format!("in <{}>: {e}", hexs(&t.0)))?;
                    nt = true;
                }
                o.nt(nt);
                o.weight = 9;
                Ok(())
            }),
            exh("all pairs of normalization-active characters", na * na, true, true, move |i| {
                let p = pools();
                Some(Text(vec![p.norm_active[(i % na) as usize], p.norm_active[(i / na) as usize]]))
            }, c36),
            rnd("segmentation-structured", t.pick(150_000, 3_000_000), || seg_text(4, 130), c36),
            rnd("normalization-structured", t.pick(150_000, 3_000_000), || norm_text(4, 40), c36),
            counted_seg(t.pick(36, 140) as usize, t.pick(300, 1100) as usize, c36),
            successive(t.pick(4, 1), seg_twins(), &[("", ""), ("\u{1F469}", "\u{200D}\u{1F469}"), ("\u{915}", "\u{94D}\u{915}"), ("e", "\u{301}")], c36),
            successive(t.pick(4, 1), norm_twins(), &[("e", "\u{301}")], c36),
            beside("active characters beside every kind of neighbour", active(), t.pick(9, 1), c36),
            very_long(&[8_300, 16_500], &["x", "\u{344}", "e\u{301}"], c36),
            rnd("both kinds of pieces", t.pick(250_000, 5_000_000), || proptest::collection::vec(proptest::prop_oneof![seg_text(1, 20), norm_text(1, 12)], 2..6).prop_map(|v| Text(v.into_iter().flat_map(|t| t.0).collect())), c36),
            rnd("mixed text", t.pick(60_000, 1_000_000), || mixed_text(5, 40), c36),
            rnd("long", t.pick(1_500, 30_000), || (seg_text(8, 300), norm_text(5, 300), seg_text(3, 40)).prop_map(|(a, b, c)| Text(a.0.into_iter().chain(b.0).chain(c.0).collect())), c36),
        ],
    }
}
