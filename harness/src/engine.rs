//! Case generation, parallel execution, shrinking, replay and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick(self, q: u64, t: u64) -> u64 {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub threads: usize,
    /// directory for one trace file per worker: the case being evaluated right now
    pub trace: Option<std::path::PathBuf>,
    pub shards: usize,
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// when a case performs many independent evaluations, how many (default 1)
    pub weight: u64,
}
impl Obs {
    pub fn nt(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn class(&mut self, c: &'static str, cond: bool) {
        if cond {
            self.classes.push(c);
        }
    }
}

pub trait Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static {
    /// Strictly simpler candidates, tried in order after the library's shrinking.
    fn simpler(&self) -> Vec<Self> {
        vec![]
    }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

// ---- watchdog: a case that uses up far more processor time than any case needs
struct Slot {
    seq: AtomicU64,
    clock: libc::clockid_t,
    cur: Mutex<Option<(usize, fn(usize) -> Value)>>,
}
static SLOTS: Mutex<Vec<std::sync::Weak<Slot>>> = Mutex::new(vec![]);
static SECTION: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let mut clock = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        let s = std::sync::Arc::new(Slot { seq: AtomicU64::new(0), clock, cur: Mutex::new(None) });
        SLOTS.lock().unwrap().push(std::sync::Arc::downgrade(&s));
        s
    };
}
/// processor seconds one case may use; ordinary cases take well under a second
pub const CASE_CPU: f64 = 60.0;
pub fn set_section(n: &str) {
    *SECTION.lock().unwrap() = n.into();
}
/// Calls `hang(section, case)` (which must not return) for a case that does not come back.
pub fn watchdog(hang: impl Fn(&str, Value) -> () + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: std::collections::HashMap<usize, (u64, f64)> = Default::default();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let v: Vec<_> = SLOTS.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
            for s in v {
                let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                if unsafe { libc::clock_gettime(s.clock, &mut ts) } != 0 {
                    continue;
                }
                let now = ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9;
                let seq = s.seq.load(Ordering::Relaxed);
                let e = seen.entry(std::sync::Arc::as_ptr(&s) as usize).or_insert((seq, now));
                if e.0 != seq {
                    *e = (seq, now);
                } else if now - e.1 > CASE_CPU {
                    let g = s.cur.lock().unwrap();
                    if s.seq.load(Ordering::Relaxed) == seq {
                        if let Some((p, f)) = *g {
                            let sec = SECTION.lock().unwrap().clone();
                            hang(&sec, f(p));
                        }
                    }
                }
            }
        }
    });
}
fn guard<C: Case, R>(c: &C, f: impl FnOnce() -> R) -> R {
    SLOT.with(|s| {
        *s.cur.lock().unwrap() = Some((c as *const C as usize, |p| serde_json::to_value(unsafe { &*(p as *const C) }).unwrap()));
        let r = f();
        s.seq.fetch_add(1, Ordering::Relaxed);
        *s.cur.lock().unwrap() = None;
        r
    })
}

pub type CheckFn<C> = Box<dyn Fn(&C, &mut Obs) -> Result<(), String> + Send + Sync>;

fn eval<C: Case>(check: &CheckFn<C>, c: &C, obs: &mut Obs) -> Result<(), String> {
    match guard(c, || catch_unwind(AssertUnwindSafe(|| check(c, obs)))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            if m.contains("oracle") && m.contains("src/oracle.rs") {
                eprintln!("HARNESS ERROR: {m}");
                std::process::exit(2);
            }
            Err(format!("panicked: {m}"))
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub set: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    capped: bool,
}
const SET_CAP: usize = 3_000_000; // per thread
impl Stats {
    fn add<C: Case>(&mut self, c: &C, o: &Obs, injective: bool) {
        self.evals += o.weight.max(1);
        for k in &o.classes {
            *self.classes.entry(k).or_default() += 1;
        }
        if o.nontrivial {
            if injective {
                self.nontrivial += 1;
            } else if self.set.len() < SET_CAP {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                c.hash(&mut h);
                self.set.insert(h.finish());
            } else {
                self.capped = true;
            }
            if self.samples.len() < 3 {
                self.samples.push(serde_json::to_string(c).unwrap_or_default().chars().take(400).collect());
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.set.extend(o.set);
        self.capped |= o.capped;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Failure {
    pub section: String,
    pub case: Value,
    pub text: String,
    pub message: String,
}

pub trait Section: Send + Sync {
    fn name(&self) -> &str;
    fn exhaustive(&self) -> bool;
    fn run(&self, ctx: &Ctx) -> (Stats, Option<Failure>);
    fn replay(&self, case: &Value) -> Result<(), String>;
    /// simpler variants of a recorded case
    fn simpler(&self, case: &Value) -> Vec<Value>;
}
fn simpler_case<C: Case>(v: &Value) -> Vec<Value> {
    match serde_json::from_value::<C>(v.clone()) {
        Ok(c) => c.simpler().iter().map(|x| serde_json::to_value(x).unwrap()).collect(),
        Err(_) => vec![],
    }
}

thread_local! {
    static TRACE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}
fn open_trace(ctx: &Ctx, worker: usize) {
    if let Some(d) = &ctx.trace {
        let f = std::fs::File::create(d.join(format!("w{worker}"))).expect("trace file");
        TRACE.with(|t| *t.borrow_mut() = Some(f));
    }
}
fn trace<C: Case>(ctx: &Ctx, name: &str, c: &C) {
    if ctx.trace.is_none() {
        return;
    }
    TRACE.with(|t| {
        if let Some(f) = &*t.borrow() {
            let s = serde_json::to_string(&json!({"section": name, "case": c})).unwrap();
            let _ = f.set_len(0);
            let _ = f.write_at(s.as_bytes(), 0);
        }
    });
}

fn minimise<C: Case>(check: &CheckFn<C>, mut c: C, mut msg: String) -> (C, String) {
    let mut budget = 4000;
    let t0 = std::time::Instant::now();
    'outer: loop {
        for s in c.simpler() {
            if budget == 0 || t0.elapsed().as_secs() > 60 {
                break 'outer;
            }
            budget -= 1;
            if let Err(m) = eval(check, &s, &mut Obs::default()) {
                c = s;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (c, msg)
}

fn failure<C: Case>(section: &str, check: &CheckFn<C>, c: C, msg: String) -> Failure {
    let (c, msg) = minimise(check, c, msg);
    Failure {
        section: section.into(),
        text: format!("{:?}", c).chars().take(2000).collect(),
        case: serde_json::to_value(&c).unwrap(),
        message: msg.chars().take(4000).collect(),
    }
}

fn replay_case<C: Case>(check: &CheckFn<C>, v: &Value) -> Result<(), String> {
    let c: C = match serde_json::from_value(v.clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("HARNESS ERROR: replay case does not parse: {e}");
            std::process::exit(2);
        }
    };
    eval(check, &c, &mut Obs::default())
}

/// Enumerates cases 0..n; the case is a pure function of the index.
pub struct Exh<C: Case> {
    pub name: String,
    pub n: u64,
    pub make: Box<dyn Fn(u64) -> Option<C> + Send + Sync>,
    pub check: CheckFn<C>,
    /// distinct indices give distinct cases
    pub injective: bool,
    pub full: bool,
}
impl<C: Case> Section for Exh<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn exhaustive(&self) -> bool {
        self.full
    }
    fn replay(&self, v: &Value) -> Result<(), String> {
        replay_case(&self.check, v)
    }
    fn simpler(&self, v: &Value) -> Vec<Value> {
        simpler_case::<C>(v)
    }
    fn run(&self, ctx: &Ctx) -> (Stats, Option<Failure>) {
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let total = Mutex::new(Stats::default());
        let fail: Mutex<Option<(u64, C, String)>> = Mutex::new(None);
        let block = (self.n / (ctx.threads as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for w in 0..ctx.threads {
                let (next, worst, total, fail) = (&next, &worst, &total, &fail);
                s.spawn(move || {
                    open_trace(ctx, w);
                    let mut st = Stats::default();
                    loop {
                        let a = next.fetch_add(block, Ordering::Relaxed);
                        if a >= self.n || a > worst.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in a..(a + block).min(self.n) {
                            let Some(c) = (self.make)(i) else { continue };
                            trace(ctx, &self.name, &c);
                            let mut o = Obs::default();
                            match eval(&self.check, &c, &mut o) {
                                Ok(()) => st.add(&c, &o, self.injective),
                                Err(m) => {
                                    worst.fetch_min(i, Ordering::Relaxed);
                                    let mut f = fail.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| x.0 > i) {
                                        *f = Some((i, c, m));
                                    }
                                    break;
                                }
                            }
                        }
                    }
                    total.lock().unwrap().merge(st);
                });
            }
        });
        let f = fail.into_inner().unwrap().map(|(_, c, m)| failure(&self.name, &self.check, c, m));
        (total.into_inner().unwrap(), f)
    }
}

/// Random cases from a proptest strategy, in fixed deterministic shards.
pub struct Rnd<C: Case> {
    pub name: String,
    pub cases: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub check: CheckFn<C>,
}

pub fn derive_seed(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in name.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    x ^= shard.wrapping_mul(0xD1B5_4A32_D192_ED03);
    let mut out = [0u8; 32];
    for ch in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        ch.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

impl<C: Case> Section for Rnd<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn exhaustive(&self) -> bool {
        false
    }
    fn replay(&self, v: &Value) -> Result<(), String> {
        replay_case(&self.check, v)
    }
    fn simpler(&self, v: &Value) -> Vec<Value> {
        simpler_case::<C>(v)
    }
    fn run(&self, ctx: &Ctx) -> (Stats, Option<Failure>) {
        let total = Mutex::new(Stats::default());
        let fails: Mutex<BTreeMap<usize, (C, String)>> = Mutex::new(BTreeMap::new());
        let stop = AtomicBool::new(false);
        let next = AtomicU64::new(0);
        let shards = ctx.shards;
        let per = self.cases.div_ceil(shards as u64).max(1);
        std::thread::scope(|s| {
            for w in 0..ctx.threads {
                let (next, stop, fails, total) = (&next, &stop, &fails, &total);
                s.spawn(move || { open_trace(ctx, w); loop {
                    let shard = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if shard >= shards || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let st = RefCell::new(Stats::default());
                    let failed = std::cell::Cell::new(false);
                    let cfg = Config {
                        cases: per as u32,
                        failure_persistence: None,
                        max_shrink_iters: 20000,
                        max_shrink_time: 60_000,
                        max_global_rejects: 1 << 20,
                        verbose: 0,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(ctx.seed, &self.name, shard as u64));
                    let mut r = TestRunner::new_with_rng(cfg, rng);
                    let strat = (self.strat)();
                    let res = r.run(&strat, |c| {
                        if !failed.get() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        trace(ctx, &self.name, &c);
                        let mut o = Obs::default();
                        match eval(&self.check, &c, &mut o) {
                            Ok(()) => {
                                if !failed.get() {
                                    st.borrow_mut().add(&c, &o, false);
                                }
                                Ok(())
                            }
                            Err(m) => {
                                failed.set(true);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(why, c)) => {
                            stop.store(true, Ordering::Relaxed);
                            fails.lock().unwrap().insert(shard, (c, why.message().to_string()));
                        }
                        Err(TestError::Abort(why)) => {
                            eprintln!("HARNESS ERROR: generator aborted in {}: {}", self.name, why.message());
                            std::process::exit(2);
                        }
                    }
                    total.lock().unwrap().merge(st.into_inner());
                } });
            }
        });
        let f = fails.into_inner().unwrap().into_iter().next().map(|(_, (c, m))| failure(&self.name, &self.check, c, m));
        (total.into_inner().unwrap(), f)
    }
}

pub fn exh<C: Case>(name: &str, n: u64, full: bool, injective: bool,
    make: impl Fn(u64) -> Option<C> + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    Box::new(Exh { name: name.into(), n, make: Box::new(make), check: Box::new(check), injective, full })
}
pub fn rnd<C: Case, S: Strategy<Value = C> + 'static>(name: &str, cases: u64,
    strat: impl Fn() -> S + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    rnd_exact(name, cases * 12, strat, check)
}
/// the count as given (rnd multiplies by the common factor that sets the cost of a tier)
pub fn rnd_exact<C: Case, S: Strategy<Value = C> + 'static>(name: &str, cases: u64,
    strat: impl Fn() -> S + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Section> {
    Box::new(Rnd { name: name.into(), cases, strat: Box::new(move || strat().boxed()), check: Box::new(check) })
}

pub struct CheckDef {
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Box<dyn Section>>,
}

pub fn distinct(st: &Stats) -> u64 {
    st.nontrivial + st.set.len() as u64
}
