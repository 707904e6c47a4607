//! vharness check ID        run a check (a child process does the work)
//! vharness run ID [--trace DIR]
//! vharness replay FILE     exit 1 if the recorded case still fails
mod api;
mod checks_hist;
mod checks_misc;
mod checks_norm;
mod checks_seg;
mod checks_tables;
mod engine;
mod enums;
mod gen;
mod oracle;
mod refimpl;
mod selfcheck;
mod stress;

use engine::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

fn def(id: &str, t: Tier, seed: u64) -> Option<CheckDef> {
    use checks_hist::*;
    use checks_misc::*;
    use checks_norm::*;
    use checks_seg::*;
    use checks_tables::*;
    Some(match id {
        "C01" => c01_def(t),
        "C02" => c02_def(t, seed),
        "C03" => c03_def(t, seed),
        "C04" => c04_def(t),
        "C05" => c05_def(t),
        "C06" => c06_def(t),
        "C07" => c07_def(t),
        "C08" => c08_def(t),
        "C09" => c09_def(t),
        "C10" => c10_def(t),
        "C11" => c11_def(),
        "C12" => c12_def(),
        "C13" => c13_def(),
        "C14" => c14_def(),
        "C15" => c15_def(),
        "C16" => c16_def(),
        "C17" => c17_def(),
        "C18" => c18_def(),
        "C19" => c19_def(),
        "C20" => c20_def(),
        "C21" => c21_def(),
        "C22" => c22_def(),
        "C23" => c23_def(t),
        "C24" => c24_def(),
        "C25" => c25_def(),
        "C26" => c26_def(t),
        "C27" => c27_def(t),
        "C28" => c28_def(t, seed),
        "C29" => c29_def(t),
        "C36" => c36_def(t),
        "SELF" => selfcheck::def(t),
        _ => return None,
    })
}

/// The replay file has all of it.
fn clip(s: &str) -> String {
    if s.len() < 3000 {
        return s.into();
    }
    let c: Vec<char> = s.chars().collect();
    format!("{} .. {}", c[..1000].iter().collect::<String>(), c[c.len() - 200..].iter().collect::<String>())
}
fn die(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    exit(2)
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn tier_name() -> &'static str {
    if tier() == Tier::Quick { "quick" } else { "thorough" }
}

fn write_replay(id: &str, section: &str, case: &Value, text: &str, message: &str) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("replays: {e}")));
    let mut h = 0xcbf29ce484222325u64;
    for b in format!("{section}{case}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let v = json!({"property": id, "section": section, "case": case, "text": text, "message": message, "seed": seed(), "tier": tier_name()});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap_or_else(|e| die(&format!("replay: {e}")));
    p
}

fn run(id: &str, trace: Option<PathBuf>) -> ! {
    install_panic_hook();
    let t0 = std::time::Instant::now();
    let t = tier();
    let Some(d) = def(id, t, seed()) else { die(&format!("no check {id}")) };
    if let Err(m) = selfcheck::quick() {
        die(&format!("the reference disagrees with itself: {m}"));
    }
    {
        let id = id.to_string();
        watchdog(move |section, case| {
            let p = write_replay(&id, section, &case, &case.to_string().chars().take(2000).collect::<String>(), "this case does not come to an end");
            println!("HANG {}", p.display());
            exit(7)
        });
    }
    let ctx = Ctx { seed: seed(), threads: 8, trace, shards: 64 };
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut secs: Vec<Value> = vec![];
    let mut all_full = true;
    let mut fail: Option<Failure> = None;
    for s in &d.sections {
        let st0 = std::time::Instant::now();
        set_section(s.name());
        let (st, f) = s.run(&ctx);
        let dn = distinct(&st);
        println!("{id} {}: {} evaluations, {} distinct non-trivial, {:.1}s", s.name(), st.evals, dn, st0.elapsed().as_secs_f64());
        evals += st.evals;
        nontrivial += dn;
        all_full &= s.exhaustive();
        for x in st.samples.iter().take(2) {
            samples.push(json!({"section": s.name(), "case": x}));
        }
        secs.push(json!({"name": s.name(), "evaluations": st.evals, "distinct_nontrivial": dn, "classes": st.classes, "exhaustive": s.exhaustive(), "wall_s": st0.elapsed().as_secs_f64()}));
        if f.is_some() {
            fail = f;
            break;
        }
    }
    let mut cov = json!({
        "evaluations": evals, "distinct_nontrivial": nontrivial, "rule": d.rule, "samples": samples, "sections": secs,
    });
    if all_full && fail.is_none() {
        cov["exhaustive"] = json!(true);
    }
    if let Some(f) = &fail {
        cov["stopped_by_violation"] = json!({"section": f.section, "case": f.text, "message": f.message});
    }
    let ev = json!({
        "property": id, "tier": tier_name(), "seed": seed(), "level": "exploration", "coverage": cov,
        "assumptions": d.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": fail.is_some() as u32,
    });
    if id != "SELF" {
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("evidence: {e}")));
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap_or_else(|e| die(&format!("evidence: {e}")));
    }
    match fail {
        None => {
            println!("OK {id}: {evals} evaluations, {nontrivial} distinct non-trivial cases");
            exit(0)
        }
        Some(f) => {
            let p = write_replay(id, &f.section, &f.case, &f.text, &f.message);
            println!("{id} [{}] {}: {}", f.section, clip(&f.text), clip(&f.message));
            println!("VIOLATION property={id} replay={}", p.display());
            exit(1)
        }
    }
}

fn replay(file: &str) -> ! {
    install_panic_hook();
    let v: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => die(&format!("{file}: {e}")),
    };
    let (id, sec) = (v["property"].as_str().unwrap_or(""), v["section"].as_str().unwrap_or(""));
    let Some(d) = def(id, tier(), v["seed"].as_u64().unwrap_or(1)) else { die("unknown property in replay") };
    let Some(s) = d.sections.iter().find(|s| s.name() == sec) else { die("unknown section in replay") };
    match s.replay(&v["case"]) {
        Ok(()) => {
            println!("{id} [{sec}]: the recorded case holds");
            exit(0)
        }
        Err(m) => {
            println!("{id} [{sec}] {}: {}", clip(&v["case"].to_string()), clip(&m));
            println!("VIOLATION property={id} replay={file}");
            exit(1)
        }
    }
}

fn is_crash(o: &std::process::Output) -> bool {
    matches!(o.status.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP))
}

/// Address space and processor time for a child, so that a call that never
/// ends, or grows without end, is ended.
fn limited(args: &[&str], cpu: u64) -> std::process::Output {
    use std::os::unix::process::CommandExt;
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me);
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let lim = |n: u64| libc::rlimit { rlim_cur: n, rlim_max: n + 1 };
            libc::setrlimit(libc::RLIMIT_AS, &lim(20 << 30));
            if cpu > 0 {
                libc::setrlimit(libc::RLIMIT_CPU, &lim(cpu));
            }
            Ok(())
        });
    }
    c.output().unwrap_or_else(|e| die(&format!("child: {e}")))
}
fn ended_badly(o: &std::process::Output) -> bool {
    is_crash(o) || o.status.signal() == Some(libc::SIGXCPU) || o.status.code() == Some(1)
}
/// The recorded case brings down a process of its own; look for simpler ones that do, and report.
fn report_fatal(id: &str, p: &Path, what: &str) -> ! {
    let t0 = std::time::Instant::now();
    let mut v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
    let d = def(id, tier(), seed()).unwrap();
    if let Some(s) = d.sections.iter().find(|s| Some(s.name()) == v["section"].as_str()) {
        let tmp = p.with_extension("tmp");
        'outer: loop {
            for c in s.simpler(&v["case"]) {
                if t0.elapsed().as_secs() > 90 {
                    break 'outer;
                }
                let mut w = v.clone();
                w["text"] = json!(c.to_string().chars().take(2000).collect::<String>());
                w["case"] = c;
                std::fs::write(&tmp, w.to_string()).unwrap();
                if ended_badly(&limited(&["replay", tmp.to_str().unwrap()], 15)) {
                    v = w;
                    continue 'outer;
                }
            }
            break;
        }
        let _ = std::fs::remove_file(&tmp);
        std::fs::write(p, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    }
    evidence_for_crash(id, p);
    println!("{id} [{}] {}: {what}", v["section"].as_str().unwrap_or(""), clip(v["text"].as_str().unwrap_or("")));
    println!("VIOLATION property={id} replay={}", p.display());
    exit(1)
}

fn check(id: &str) -> ! {
    let o = limited(&["run", id], 0);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    print!("{out}");
    eprint!("{}", String::from_utf8_lossy(&o.stderr));
    if o.status.code() == Some(7) {
        let Some(f) = out.lines().rev().find_map(|l| l.strip_prefix("HANG ")) else { die("no case recorded") };
        let r = limited(&["replay", f], CASE_CPU as u64);
        if ended_badly(&r) {
            report_fatal(id, Path::new(f), "this case does not come to an end");
        }
        die("a case took very long, but does come to an end");
    }
    if let Some(c) = o.status.code() {
        exit(if c == 0 || c == 1 { c } else { 2 });
    }
    if !is_crash(&o) {
        die(&format!("the run was ended: {}", o.status));
    }
    // The library brought the process down. Find the case: run again, recording what each worker is at.
    let dir = root().join(".target").join(format!("trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("trace: {e}")));
    let o = limited(&["run", id, "--trace", dir.to_str().unwrap()], 0);
    let mut found: Option<PathBuf> = None;
    if is_crash(&o) {
        let mut cases: Vec<PathBuf> = std::fs::read_dir(&dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        cases.sort();
        for c in cases {
            let Ok(v) = std::fs::read_to_string(&c).map_err(|_| ()).and_then(|s| serde_json::from_str::<Value>(&s).map_err(|_| ())) else { continue };
            let msg = "the process is ended by a signal while evaluating this case";
            let p = write_replay(id, v["section"].as_str().unwrap_or(""), &v["case"], &v["case"].to_string(), msg);
            if is_crash(&limited(&["replay", p.to_str().unwrap()], CASE_CPU as u64)) {
                found = Some(p);
                break;
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    match found {
        Some(p) => report_fatal(id, &p, &format!("the process is ended by {} while evaluating this case", o.status)),
        None => die(&format!("the run was ended ({}), and no single case reproduces it", o.status)),
    }
}
fn evidence_for_crash(id: &str, p: &Path) {
    let ev = json!({"property": id, "tier": tier_name(), "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was ended by a crash of the library; only the crashing case is reported", "samples": [p.display().to_string()]},
        "wall_s": 0.0, "violations": 1});
    let _ = std::fs::write(root().join("evidence").join(format!("{id}.json")), ev.to_string());
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id] => check(id),
        ["run", id] => run(id, None),
        ["run", id, "--trace", d] => run(id, Some(PathBuf::from(d))),
        ["replay", f] => replay(f),
        _ => die("usage: vharness check ID | run ID | replay FILE"),
    }
}
