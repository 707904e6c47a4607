//! C28: programs of calls, run in a forked process that has not called the
//! library before, on one or several threads, against the reference and
//! against the same call alone in another fresh process.
use crate::api::*;
use crate::engine::*;
use crate::enums;
use crate::gen::*;
use crate::oracle::*;
use crate::refimpl::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use seshat::unicode::{Segmentation, Ucd};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// form, text; through a reused buffer if the flag is set
    Norm(u8, u8, bool),
    /// whole segmentation of a text; through a reused buffer if set
    Seg(u8, bool),
    /// accessor number, code point, on char if possible
    Acc(u8, u32, bool),
    /// start iterating over a text
    Iter(u8),
    /// advance the n-th live iterator
    Step(u8),
    /// abandon the n-th live iterator
    Drop(u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Prog {
    texts: Vec<Text>,
    threads: Vec<Vec<Op>>,
}
impl Case for Prog {
    fn simpler(&self) -> Vec<Self> {
        let mut out = vec![];
        for i in 0..self.threads.len() {
            if self.threads.len() > 1 {
                let mut m = self.clone();
                m.threads.remove(i);
                out.push(m);
            }
        }
        for i in 0..self.threads.len() {
            let n = self.threads[i].len();
            let mut k = (n / 2).max(1);
            while k >= 1 && n > 0 {
                let mut a = 0;
                while a + k <= n && out.len() < 150 {
                    let mut m = self.clone();
                    m.threads[i].drain(a..a + k);
                    out.push(m);
                    a += k;
                }
                if k == 1 { break }
                k /= 2;
            }
        }
        for i in 0..self.texts.len() {
            for t in self.texts[i].simpler().into_iter().take(30) {
                let mut m = self.clone();
                m.texts[i] = t;
                out.push(m);
            }
        }
        out
    }
}

fn n_acc() -> usize {
    ENUMS.len() + 3 + PROPLIST.len() + DERIVED.len() + EMOJI.len()
}
fn bin(i: usize) -> &'static Bin {
    PROPLIST.iter().chain(DERIVED).chain(EMOJI).nth(i).unwrap()
}
fn acc_call(which: u8, c: u32, on_char: bool) -> String {
    let i = which as usize % n_acc();
    let p = cp(c);
    let ch = if on_char { char::from_u32(c) } else { None };
    if i < ENUMS.len() {
        return match ch { Some(x) => (ENUMS[i].on_char)(&x), None => (ENUMS[i].on_cp)(&p) }.into();
    }
    match i - ENUMS.len() {
        0 => match ch { Some(x) => x.dm(), None => p.dm() },
        1 => match ch { Some(x) => x.na(), None => p.na() },
        2 => enums::ccc(match ch { Some(x) => x.ccc(), None => p.ccc() }).into(),
        k => { let b = bin(k - 3); match ch { Some(x) => (b.on_char)(&x), None => (b.on_cp)(&p) } }.to_string(),
    }
}
fn acc_want(which: u8, c: u32) -> String {
    let i = which as usize % n_acc();
    let u = ucd();
    if i < ENUMS.len() {
        return u.e(ENUMS[i].ucd, c).into();
    }
    match i - ENUMS.len() {
        0 => u.dm_of(c).iter().map(|x| char::from_u32(*x).unwrap()).collect(),
        1 => u.name(c).into(),
        2 => u.cccabbr[&u.ccc[c as usize]].into(),
        k => u.b(bin(k - 3).ucd, c).to_string(),
    }
}
fn items(s: &[char]) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    for l in clusters(s) {
        out.push(s[i..i + l].iter().collect());
        i += l;
    }
    out
}
fn show_items(v: &[String]) -> String {
    v.iter().map(|x| hexs(&x.chars().collect::<Vec<_>>())).collect::<Vec<_>>().join(" / ")
}

/// A call that can be repeated on its own.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Alone {
    Norm(u8, Text),
    Seg(Text),
    Acc(u8, u32, bool),
    /// k-th item of a fresh iterator
    Nth(Text, u32),
}
fn guarded(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panicked".into())
}
fn run_alone(a: &Alone) -> String {
    match a {
        Alone::Norm(f, t) => {
            let s = t.s();
            guarded(|| hexs(&norm_chars(&s, FORMS[*f as usize % 4])))
        }
        Alone::Seg(t) => {
            let s = t.s();
            guarded(|| match seg_items(&s) { Ok(v) => show_items(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), Err(e) => e })
        }
        Alone::Acc(w, c, b) => guarded(|| acc_call(*w, *c, *b)),
        Alone::Nth(t, k) => {
            let s = t.s();
            guarded(|| {
                let mut it = s.break_graphemes();
                let mut r = None;
                for _ in 0..=*k {
                    r = it.next();
                }
                match r { Some(x) => hexs(&x.chars().collect::<Vec<_>>()), None => "end".into() }
            })
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Mismatch {
    thread: usize,
    op: usize,
    call: Alone,
    got: String,
}

fn run_thread(p: &Prog, ti: usize, out: &mut Vec<Mismatch>) {
    let texts: Vec<String> = p.texts.iter().map(|t| t.s()).collect();
    let before = texts.clone();
    let mut buf = String::with_capacity(texts.iter().map(|t| t.len()).max().unwrap_or(0) + 1);
    struct Live<'a> {
        it: seshat::unicode::BreakGraphemes<'a>,
        text: usize,
        pos: u32,
        dead: bool,
    }
    let mut live: Vec<Live> = vec![];
    let nt = texts.len().max(1);
    for (oi, op) in p.threads[ti].iter().enumerate() {
        if out.len() > 20 {
            break;
        }
        let mut bad = |call: Alone, got: String, want: &str| {
            if got != want {
                out.push(Mismatch { thread: ti, op: oi, call, got });
            }
        };
        match op {
            Op::Norm(f, t, reuse) => {
                let (f, t) = (*f % 4, *t as usize % nt);
                let src: &str = if *reuse {
                    buf.clear();
                    buf.push_str(&texts[t]);
                    &buf
                } else {
                    &texts[t]
                };
                let got = guarded(|| hexs(&norm_chars(src, FORMS[f as usize])));
                bad(Alone::Norm(f, p.texts[t].clone()), got, &hexs(&normalize(&p.texts[t].0, FORMS[f as usize])));
            }
            Op::Seg(t, reuse) => {
                let t = *t as usize % nt;
                let src: &str = if *reuse {
                    buf.clear();
                    buf.push_str(&texts[t]);
                    &buf
                } else {
                    &texts[t]
                };
                let got = guarded(|| match seg_items(src) { Ok(v) => show_items(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), Err(e) => e });
                bad(Alone::Seg(p.texts[t].clone()), got, &show_items(&items(&p.texts[t].0)));
            }
            Op::Acc(w, c, b) => {
                let got = guarded(|| acc_call(*w, *c, *b));
                bad(Alone::Acc(*w, *c, *b), got, &acc_want(*w, *c));
            }
            Op::Iter(t) => {
                let t = *t as usize % nt;
                if live.len() < 12 {
                    live.push(Live { it: texts[t].break_graphemes(), text: t, pos: 0, dead: false });
                }
            }
            Op::Step(k) => {
                if live.is_empty() {
                    continue;
                }
                let k = *k as usize % live.len();
                let l = &mut live[k];
                if l.dead {
                    continue;
                }
                let got = guarded(|| match l.it.next() { Some(x) => hexs(&x.chars().collect::<Vec<_>>()), None => "end".into() });
                let all = items(&p.texts[l.text].0);
                let want = match all.get(l.pos as usize) { Some(x) => hexs(&x.chars().collect::<Vec<_>>()), None => "end".into() };
                if got != want {
                    l.dead = true;
                }
                bad(Alone::Nth(p.texts[l.text].clone(), l.pos), got, &want);
                l.pos += 1;
            }
            Op::Drop(k) => {
                if !live.is_empty() {
                    let k = *k as usize % live.len();
                    live.remove(k);
                }
            }
        }
    }
    drop(live);
    for (i, t) in texts.iter().enumerate() {
        if *t != before[i] {
            out.push(Mismatch { thread: ti, op: usize::MAX, call: Alone::Norm(0, p.texts[i].clone()), got: "the input text itself was modified".into() });
        }
    }
}

/// Runs `f` in a forked process and returns what it wrote, or the signal that ended it
/// (SIGALRM: it did not finish; programs take milliseconds).
static SLOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            eprintln!("HARNESS ERROR: pipe");
            std::process::exit(2);
        }
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("HARNESS ERROR: fork");
            std::process::exit(2);
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(if SLOW.load(std::sync::atomic::Ordering::Relaxed) { 10 } else { 150 });
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            let data = catch_unwind(AssertUnwindSafe(f));
            let Ok(data) = data else { libc::_exit(99) };
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(&data);
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut data = vec![];
        let _ = r.read_to_end(&mut data);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGKILL {
                eprintln!("HARNESS ERROR: a program of calls was killed");
                std::process::exit(2);
            }
            if s == libc::SIGALRM {
                SLOW.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            return Err(s);
        }
        if libc::WEXITSTATUS(st) != 0 {
            eprintln!("HARNESS ERROR: forked process failed");
            std::process::exit(2);
        }
        Ok(data)
    }
}
fn alone_fresh(a: &Alone) -> Result<String, i32> {
    forked(|| run_alone(a).into_bytes()).map(|v| String::from_utf8(v).unwrap())
}

fn hist(p: &Prog, o: &mut Obs) -> Result<(), String> {
    let ops: usize = p.threads.iter().map(|t| t.len()).sum();
    o.weight = ops as u64;
    let distinct: std::collections::HashSet<String> = p.threads.iter().flatten().map(|x| format!("{x:?}")).collect();
    o.nt(ops > 3 && distinct.len() < ops);
    o.class("several threads", p.threads.len() > 1);
    o.class("interleaved iterators", p.threads.iter().any(|t| t.iter().filter(|x| matches!(x, Op::Iter(_))).count() > 1));
    o.class("surrogate code point", p.threads.iter().flatten().any(|x| matches!(x, Op::Acc(_, c, _) if !is_scalar(*c))));
    let res = forked(|| {
        let n = p.threads.len();
        let mut all: Vec<Mismatch> = vec![];
        if n == 1 {
            run_thread(p, 0, &mut all);
        } else {
            let bar = std::sync::Barrier::new(n);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|i| { let bar = &bar; s.spawn(move || { let mut v = vec![]; bar.wait(); run_thread(p, i, &mut v); v }) }).collect();
                for h in hs {
                    all.extend(h.join().unwrap());
                }
            });
        }
        serde_json::to_vec(&all).unwrap()
    });
    match res {
        Ok(data) => {
            let all: Vec<Mismatch> = serde_json::from_slice(&data).unwrap();
            for m in all.iter().take(40) {
                if m.op == usize::MAX {
                    return Err(m.got.clone());
                }
                match alone_fresh(&m.call) {
                    Ok(a) if a == m.got => {} // wrong, but not because of history: another property's business
                    Ok(a) => return Err(format!("thread {} call {}: {:?} gave {:?}; the same call alone in a fresh process gives {a:?}", m.thread, m.op, m.call, m.got)),
                    Err(_) => {}
                }
            }
            Ok(())
        }
        Err(sig) => {
            // every call of the program alone: does one of them crash by itself?
            let mut calls: Vec<Alone> = vec![];
            for t in &p.texts {
                calls.push(Alone::Seg(t.clone()));
                for f in 0..4 { calls.push(Alone::Norm(f, t.clone())) }
            }
            for x in p.threads.iter().flatten() {
                if let Op::Acc(w, c, b) = x { calls.push(Alone::Acc(*w, *c, *b)) }
            }
            if calls.iter().any(|c| alone_fresh(c).is_err()) {
                return Ok(());
            }
            let how = if sig == libc::SIGALRM { "does not come to an end".to_string() } else { format!("is ended by signal {sig}") };
            Err(format!("the program of calls {how}; none of its calls does or is when made alone"))
        }
    }
}

fn prog(nthreads: usize, maxops: usize) -> impl Strategy<Value = Prog> {
    prog_with(nthreads, maxops, mixed_text(2, 20).boxed())
}
/// a long text: a piece of text over and over
fn long_text(max: u32) -> impl Strategy<Value = Text> {
    (mixed_text(1, 8), mixed_text(1, 12), 0..max).prop_map(|(a, z, n)| {
        let mut v = vec![];
        while !a.0.is_empty() && v.len() < n as usize {
            v.extend(&a.0);
        }
        v.extend(&z.0);
        Text(v)
    })
}
fn prog_with(nthreads: usize, maxops: usize, text: BoxedStrategy<Text>) -> impl Strategy<Value = Prog> {
    let texts = (prop::collection::vec(text, 1..5), any::<u32>()).prop_map(|(mut v, x)| {
        // relatives of the first text: same length, other content
        let t = v[0].0.clone();
        if t.len() > 1 {
            let mut r = t.clone();
            r.reverse();
            v.push(Text(r));
            let mut r = t.clone();
            r.rotate_left(x as usize % t.len());
            v.push(Text(r));
        }
        v
    });
    let cps = prop::collection::vec((any_char(), 0u8..9, any::<u32>()), 1..5).prop_map(|v| {
        let mut out = vec![];
        for (c, k, x) in v {
            let c = c as u32;
            out.push(c);
            out.push(match k {
                0 => c ^ 1,
                1 => c + 1,
                2 => c ^ 0x100,
                3 => c ^ 0x10000,
                4 => c + 128,
                5 => 0xD800 + (x & 0x7FF),
                6 => c ^ (1 << (x % 20)),
                7 => c + 4096,
                _ => c + 256 * (x % 300),
            } % 0x110000);
        }
        out
    });
    (texts, cps, prop::collection::vec(any::<u8>(), 1..6)).prop_flat_map(move |(texts, cps, accs)| {
        let op = prop_oneof![
            3 => (0u8..4, any::<u8>(), any::<bool>()).prop_map(|(f, t, r)| Op::Norm(f, t, r)),
            2 => (any::<u8>(), any::<bool>()).prop_map(|(t, r)| Op::Seg(t, r)),
            4 => (prop::sample::select(accs.clone()), prop::sample::select(cps.clone()), any::<bool>()).prop_map(|(w, c, b)| Op::Acc(w, c, b)),
            1 => (any::<u8>(), prop::sample::select(cps), any::<bool>()).prop_map(|(w, c, b)| Op::Acc(w, c, b)),
            2 => any::<u8>().prop_map(Op::Iter),
            6 => any::<u8>().prop_map(Op::Step),
            1 => any::<u8>().prop_map(Op::Drop),
        ];
        (Just(texts), prop::collection::vec(prop::collection::vec(op, 1..maxops), if nthreads == 1 { 1..2 } else { 2..nthreads + 1 }))
    }).prop_map(|(texts, threads)| Prog { texts, threads })
}

/// One program per code point: every accessor on it alternating with its twins
/// (one bit, or only the plane, different), on `char` and on `CodePoint`.
fn twins(i: u64, seed: u64) -> Prog {
    let p = pools();
    let h = (i ^ seed.wrapping_mul(0x9E37_79B9)).wrapping_mul(0xD1B5_4A32_D192_ED03) >> 20;
    let c = match i % 6 {
        0 => p.special[(i / 6) as usize % p.special.len()] as u32,
        1 => p.scalars_assigned[h as usize % p.scalars_assigned.len()] as u32,
        2 => p.norm_active[h as usize % p.norm_active.len()] as u32,
        3 => 0x10000 + (h as u32 % 0x20000),
        4 => h as u32 % 0x3000,
        _ => h as u32 % 0x110000,
    };
    let mut ops = vec![];
    for w in 0..n_acc() as u8 {
        for j in 0..21 + 17u32 {
            let d = if j < 21 { c ^ (1 << j) } else { (c & 0xFFFF) | ((j - 21) << 16) };
            if d <= 0x10FFFF && d != c {
                let on_char = (j + w as u32 + i as u32) % 2 == 0;
                ops.push(Op::Acc(w, c, on_char));
                ops.push(Op::Acc(w, d, on_char ^ (j % 3 == 0)));
            }
        }
        ops.push(Op::Acc(w, c, true));
        ops.push(Op::Acc(w.wrapping_add(1), c, false));
    }
    Prog { texts: vec![], threads: vec![ops] }
}

/// Texts of characters that agree in their low bits, one after the other.
fn twin_texts(i: u64, seed: u64) -> Prog {
    static P: std::sync::OnceLock<(Vec<(char, char)>, Vec<(char, char)>)> = std::sync::OnceLock::new();
    let (norm, seg) = P.get_or_init(|| (crate::stress::norm_twins(), crate::stress::seg_twins()));
    let mut p = Prog { texts: vec![], threads: vec![vec![]] };
    for k in 0..40u64 {
        let h = ((i * 40 + k) ^ seed.wrapping_mul(0x9E37_79B9)).wrapping_mul(0xD1B5_4A32_D192_ED03) >> 20;
        let n = p.texts.len() as u8;
        if k % 8 == 7 {
            let (x, y) = seg[h as usize % seg.len()];
            let around = [["", ""], ["\u{1F469}", "\u{200D}\u{1F469}"], ["\u{915}", "\u{94D}\u{915}"], ["\u{1100}", "\u{1161}"]][(i % 4) as usize];
            for c in [x, y] {
                p.texts.push(Text(around[0].chars().chain([c]).chain(around[1].chars()).collect()));
            }
            p.threads[0].extend([Op::Seg(n, false), Op::Seg(n + 1, false), Op::Seg(n, false)]);
        } else {
            let (x, y) = norm[(i as usize * 40 + k as usize + (seed as usize).wrapping_mul(7919)) % norm.len()];
            let form = [2, 2, 2, 3, 0, 1][(h % 6) as usize];
            for c in [x, y] {
                p.texts.push(Text(if k % 3 < 2 { normalize(&[c], Form::Nfkd) } else { vec![c] }));
            }
            p.threads[0].extend([Op::Norm(form, n, false), Op::Norm(form, n + 1, false), Op::Norm(form, n, false)]);
        }
    }
    p
}
/// Runs of calls on long texts, then calls on short ones, over and over.
fn phases() -> impl Strategy<Value = Prog> {
    let size = (6u32..12, any::<u32>()).prop_map(|(k, x)| (1usize << k) + x as usize % (1 << k));
    let long = (size, mixed_text(1, 8), norm_text(1, 12)).prop_map(|(n, a, z)| {
        let mut v = vec![];
        while v.len() < n {
            v.extend(&a.0);
            v.push('x');
        }
        v.extend(&z.0);
        Text(v)
    });
    let op = |short: bool| (0u8..6, 0u8..3, any::<bool>()).prop_map(move |(f, t, r)| {
        let t = if short { t + 3 } else { t };
        if f < 4 { Op::Norm(f, t, r) } else { Op::Seg(t, r) }
    });
    let part = (prop::collection::vec(op(false), 1..6), prop::collection::vec(op(true), 1..5));
    (prop::collection::vec(long, 3..4), prop::collection::vec(norm_text(2, 12), 3..4), prop::collection::vec(part, 2..7)).prop_map(|(a, b, parts)| Prog {
        texts: a.into_iter().chain(b).collect(),
        threads: vec![parts.into_iter().flat_map(|(x, y)| x.into_iter().chain(y)).collect()],
    })
}

/// One call made very many times, or one program run over and over, in a process of its own.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Many {
    what: What,
    times: u32,
    threads: u8,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum What {
    Acc(u8, u32, bool),
    Norm(u8, Text),
    Seg(Text),
    /// start an iterator, take so many items, abandon it
    Begin(Text, u8),
    /// one accessor over the whole code space, starting at and stepping by
    Sweep(u8, u32, u32, bool),
    /// one form over every scalar value between two characters
    SweepNorm(u8, Text, Text, u32),
    Rounds(Prog),
}
impl Case for Many {
    fn simpler(&self) -> Vec<Self> {
        let mut out = vec![];
        for t in [1, 2, self.times / 2, self.times - self.times / 8, self.times - self.times / 64, self.times - self.times / 1024, self.times.saturating_sub(1)] {
            if t > 0 && t < self.times {
                out.push(Many { times: t, ..self.clone() });
            }
        }
        if self.threads > 1 {
            out.push(Many { threads: 1, ..self.clone() });
        }
        let with = |w: What| Many { what: w, ..self.clone() };
        match &self.what {
            What::Norm(f, t) => out.extend(t.simpler().into_iter().map(|t| with(What::Norm(*f, t)))),
            What::Seg(t) => out.extend(t.simpler().into_iter().map(|t| with(What::Seg(t)))),
            What::Begin(t, k) => out.extend(t.simpler().into_iter().map(|t| with(What::Begin(t, *k)))),
            What::Rounds(p) => out.extend(p.simpler().into_iter().map(|p| with(What::Rounds(p)))),
            _ => {}
        }
        out
    }
}
fn many_thread(c: &Many, ti: usize) -> Vec<Mismatch> {
    let mut out = vec![];
    let mut bad = |op: u64, call: Alone, got: String| out.push(Mismatch { thread: ti, op: op as usize, call, got });
    match &c.what {
        What::Acc(w, p, b) => {
            let want = acc_want(*w, *p);
            for k in 0..c.times {
                let got = guarded(|| acc_call(*w, *p, *b));
                if got != want {
                    bad(k as u64, Alone::Acc(*w, *p, *b), got);
                    break;
                }
            }
        }
        What::Norm(f, t) => {
            let s = t.s();
            let form = FORMS[*f as usize % 4];
            let want: String = normalize(&t.0, form).into_iter().collect();
            for k in 0..c.times {
                let got = catch_unwind(AssertUnwindSafe(|| norm(&s, form)));
                if got.as_ref().ok() != Some(&want) {
                    bad(k as u64, Alone::Norm(*f, t.clone()), match got { Ok(g) => hexs(&g.chars().collect::<Vec<_>>()), Err(_) => "panicked".into() });
                    break;
                }
            }
        }
        What::Seg(t) => {
            let s = t.s();
            let want = items(&t.0);
            for k in 0..c.times {
                let got = guarded(|| {
                    let mut it = s.break_graphemes();
                    let same = want.iter().all(|w| it.next().is_some_and(|g| g == *w)) && it.next().is_none();
                    if same { String::new() } else { match seg_items(&s) { Ok(v) => show_items(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), Err(e) => e } }
                });
                if !got.is_empty() {
                    let got = if got == show_items(&want) { "another division, gone when repeated".into() } else { got };
                    bad(k as u64, Alone::Seg(t.clone()), got);
                    break;
                }
            }
        }
        What::Begin(t, n) => {
            let s = t.s();
            let want = items(&t.0);
            for k in 0..c.times {
                let mut wrong = None;
                let got = guarded(|| {
                    let mut it = s.break_graphemes();
                    for j in 0..=*n as usize {
                        let g = it.next();
                        if g.as_ref().map(|x| x.to_string()) != want.get(j).cloned() {
                            wrong = Some(j);
                            return match g { Some(x) => hexs(&x.chars().collect::<Vec<_>>()), None => "end".into() };
                        }
                    }
                    String::new()
                });
                if !got.is_empty() {
                    bad(k as u64, Alone::Nth(t.clone(), wrong.unwrap_or(0) as u32), got);
                    break;
                }
            }
        }
        What::Sweep(w, from, step, on_char) => {
            for round in 0..c.times {
                let mut p = *from % 0x110000;
                for k in 0..0x110000u64 {
                    let b = *on_char && is_scalar(p);
                    let got = guarded(|| acc_call(*w, p, b));
                    if got != acc_want(*w, p) {
                        out.push(Mismatch { thread: ti, op: (round as u64 * 0x110000 + k) as usize, call: Alone::Acc(*w, p, b), got });
                        if out.len() > 20 {
                            return out;
                        }
                    }
                    p = (p + step) % 0x110000;
                }
            }
        }
        What::SweepNorm(f, a, z, step) => {
            let form = FORMS[*f as usize % 4];
            let mut p = 0u32;
            for k in 0..0x110000u64 {
                p = (p + step) % 0x110000;
                let Some(x) = char::from_u32(p) else { continue };
                let t: Vec<char> = [&a.0[..], &[x], &z.0[..]].concat();
                let s: String = t.iter().collect();
                let got = catch_unwind(AssertUnwindSafe(|| norm(&s, form)));
                let want: String = normalize(&t, form).into_iter().collect();
                if got.as_ref().ok() != Some(&want) {
                    let got = match got { Ok(g) => hexs(&g.chars().collect::<Vec<_>>()), Err(_) => "panicked".into() };
                    out.push(Mismatch { thread: ti, op: k as usize, call: Alone::Norm(*f, Text(t)), got });
                    if out.len() > 20 {
                        return out;
                    }
                }
            }
        }
        What::Rounds(p) => {
            for _ in 0..c.times {
                run_thread(p, ti % p.threads.len().max(1), &mut out);
                if !out.is_empty() {
                    return out;
                }
            }
        }
    }
    out
}
fn many(c: &Many, o: &mut Obs) -> Result<(), String> {
    let n = c.threads.max(1) as usize;
    let per = match &c.what {
        What::Sweep(..) => c.times as u64 * 0x110000,
        What::SweepNorm(..) => 0x110000 - 2048,
        What::Rounds(p) => c.times as u64 * p.threads.iter().map(|t| t.len() as u64).sum::<u64>() / p.threads.len().max(1) as u64,
        _ => c.times as u64,
    };
    o.weight = per * n as u64;
    o.nt(per > 1);
    o.class("several threads", n > 1);
    let res = forked(|| {
        let all = if n == 1 { many_thread(c, 0) } else {
            let bar = std::sync::Barrier::new(n);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|i| { let bar = &bar; s.spawn(move || { bar.wait(); many_thread(c, i) }) }).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        };
        serde_json::to_vec(&all).unwrap()
    });
    match res {
        Ok(data) => {
            let all: Vec<Mismatch> = serde_json::from_slice(&data).unwrap();
            for m in all.iter().take(25) {
                if let Ok(a) = alone_fresh(&m.call) {
                    if a != m.got {
                        return Err(format!("thread {} after {} calls: {:?} gave {:?}; the same call alone in a fresh process gives {a:?}", m.thread, m.op, m.call, m.got));
                    }
                }
            }
            Ok(())
        }
        Err(sig) => {
            let once = match &c.what {
                What::Acc(w, p, b) => vec![Alone::Acc(*w, *p, *b)],
                What::Norm(f, t) => vec![Alone::Norm(*f, t.clone())],
                What::Seg(t) | What::Begin(t, _) => vec![Alone::Seg(t.clone())],
                What::Rounds(p) => {
                    let mut o = Obs::default();
                    hist(p, &mut o)?;
                    p.texts.iter().flat_map(|t| (0..4).map(|f| Alone::Norm(f, t.clone())).chain([Alone::Seg(t.clone())])).collect()
                }
                // any code point could be the one that fails by itself: the properties of the tables see it
                What::Sweep(..) | What::SweepNorm(..) => return Ok(()),
            };
            if once.iter().any(|a| alone_fresh(a).is_err()) {
                return Ok(());
            }
            let how = if sig == libc::SIGALRM { "do not come to an end".to_string() } else { format!("are ended by signal {sig}") };
            Err(format!("{} repeated calls {how}; one alone is not", c.times))
        }
    }
}
const MANY_TEXTS: [&str; 8] = ["", "a", "e\u{301}\u{323}", "\u{1100}\u{1161}\u{11A8}", "\u{AC01}\u{FB01}\u{1D5}", "\u{915}\u{94D}\u{915}\u{1F1E6}\u{1F1E7}\u{1F1E8}\r\n",
    "\u{1F469}\u{200D}\u{1F469}\u{301}", "\u{FDFA}"];
fn many_case(i: u64, times: u32, seed: u64) -> Many {
    let nt = MANY_TEXTS.len() as u64;
    let threads = if i % 5 == 4 { 4 } else { 1 };
    let na = n_acc() as u64;
    let h = (i ^ seed.wrapping_mul(0x9E37_79B9)).wrapping_mul(0xD1B5_4A32_D192_ED03) >> 20;
    let text = |k: u64| Text(MANY_TEXTS[(k % nt) as usize].chars().collect());
    let what = if i < na * 4 {
        let p = pools();
        let c = match i / na { 0 => 'A' as u32, 1 => p.scalars_assigned[h as usize % p.scalars_assigned.len()] as u32, 2 => 0xAC00 + h as u32 % 11172, _ => h as u32 % 0x110000 };
        What::Acc((i % na) as u8, c, (i / na + i) % 2 == 0)
    } else {
        let j = i - na * 4;
        match j % 6 {
            k @ 0..=3 => What::Norm(k as u8, text(j / 6)),
            4 => What::Seg(text(j / 6)),
            _ => What::Begin(text(j / 6), (j / 6 / nt) as u8),
        }
    };
    Many { what, times, threads }
}

pub fn c28_def(t: Tier, seed: u64) -> CheckDef {
    // the reference data must be in place before the first fork
    let _ = (ucd(), classes(), pools());
    CheckDef {
        rule: "cases: random programs of property queries, normalizations, segmentations (some through one reused buffer, so that different texts share an address) and steps of interleaved iterators, over a few related texts and code points, on 1 or 2-6 threads; each program starts in a process that has not used the library. evaluations counts calls. Non-trivial: at least one call is repeated; distinct by content",
        assumptions: &["thread interleavings are those the scheduler produces, not enumerated",
            "a result that differs from the reference is judged by repeating that call alone in another fresh process: only a difference between the two is a violation here"],
        sections: vec![
            exh("code points alternating with their twins in the low bits", t.pick(6_000, 100_000), false, true, move |i| Some(twins(i, seed)), hist),
            exh("texts of twin characters one after the other", t.pick(5_000, 60_000), false, true, move |i| Some(twin_texts(i, seed)), hist),
            exh("one call very many times", n_acc() as u64 * 4 + 6 * MANY_TEXTS.len() as u64 * 2, false, true, move |i| Some(many_case(i, t.pick(140_000, 1_200_000) as u32, seed)), many),
            exh("one accessor over all code points, in several orders", n_acc() as u64 * t.pick(1, 6), false, true, move |i| {
                let (w, k) = (i % n_acc() as u64, i / n_acc() as u64 + seed + i);
                let step = [1u32, 0x10FFFF, 0x10001, 257, 4099, 65539][k as usize % 6];
                Some(Many { what: What::Sweep(w as u8, (k as u32).wrapping_mul(2654435761), step, k % 2 == 0), times: 2, threads: if t.pick(0, 1) == 1 && k % 4 == 3 { 3 } else { 1 } })
            }, many),
            exh("one form over all scalar values, in several orders", 4 * t.pick(3, 12), false, true, move |i| {
                let around = [("", ""), ("a", ""), ("", "\u{301}"), ("\u{1100}", "\u{11A8}")][(i / 4 % 4) as usize];
                let text = |s: &str| Text(s.chars().collect());
                let step = [0x10FFFFu32, 1, 0x10001, 257, 4099, 65539][((i / 4 + seed) % 6) as usize];
                Some(Many { what: What::SweepNorm((i % 4) as u8, text(around.0), text(around.1), step), times: 1, threads: 1 })
            }, many),
            rnd_exact("programs run over and over", t.pick(48, 1_000), move || (prog(4, 40), 0u32..3).prop_map(|(p, k)| {
                let calls: usize = p.threads.iter().map(|t| t.len()).max().unwrap_or(1).max(1);
                Many { threads: p.threads.len() as u8, what: What::Rounds(p), times: [35_000u32, 20_000, 70_000][k as usize] / calls as u32 + 1 }
            }), many),
            rnd_exact("one thread", t.pick(9_000, 200_000), || prog(1, 60), hist),
            rnd_exact("one thread, long", t.pick(1_200, 30_000), || prog(1, 500), hist),
            rnd_exact("long texts among short ones", t.pick(250, 6_000), || prog_with(2, 30, prop_oneof![3 => mixed_text(2, 20), 1 => long_text(400), 1 => long_text(3_000)].boxed()), hist),
            rnd_exact("long texts, then short ones, in turn", t.pick(1_600, 10_000), phases, hist),
            rnd_exact("several threads", t.pick(4_000, 100_000), || prog(6, 60), hist),
        ],
    }
}
