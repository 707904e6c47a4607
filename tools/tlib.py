"""Shared parts of the checks of the data tool (C30-C35): scratch copies,
worker pool, replay files, evidence."""
import atexit, collections, functools, hashlib, importlib.util, io, json, os, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER != 'thorough'
T0 = time.time()
MAXCP = 0x10FFFF


class NoAnswer(Exception):
    """The check could not be carried out (not a violation)."""


class Bad(Exception):
    """The property does not hold on this case."""


_scratch = []


def scratch():
    """A folder outside /repo that is removed when this process ends."""
    d = tempfile.mkdtemp(prefix='vtool-')
    os.chmod(d, 0o755)
    _scratch.append((os.getpid(), d))
    return d


@atexit.register
def _clean():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def _term(*_):
    sys.exit(124)


signal.signal(signal.SIGTERM, _term)


def version_dir():
    """The data folder of the current Unicode version, as the tool names it."""
    ns = {}
    p = os.path.join(REPO, 'tools/ucd-tool/ucd/unicode.py')
    with open(p) as f:
        exec(compile(f.read(), p, 'exec'), ns)
    return '{}.{}.{}'.format(ns['UNICODE_VERSION_MAJOR'], ns['UNICODE_VERSION_MINOR'], ns['UNICODE_VERSION_UPDATE'])


def copy_repo(dst, data=True, src=True):
    """The parts of /repo the tool works on: tools, src, Cargo.toml, tests folder."""
    os.makedirs(dst, exist_ok=True)
    ver = version_dir()

    def skip(d, names):
        rel = os.path.relpath(d, REPO)
        out = [n for n in names if n == '__pycache__' or n == '.env']
        if rel == 'tools/ucd-tool/data':
            out += [n for n in names if n != ver or not data]
        return out
    shutil.copytree(os.path.join(REPO, 'tools'), os.path.join(dst, 'tools'), ignore=skip)
    if src:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'))
    os.makedirs(os.path.join(dst, 'tests'), exist_ok=True)
    if os.path.exists(os.path.join(REPO, 'Cargo.toml')):
        # without dev-dependencies: only the library is built
        with open(os.path.join(REPO, 'Cargo.toml')) as f:
            t = f.read()
        keep, on = [], True
        for line in t.splitlines():
            if line.startswith('['):
                on = not line.startswith('[dev-dependencies')
            if on:
                keep.append(line)
        with open(os.path.join(dst, 'Cargo.toml'), 'w') as f:
            f.write('\n'.join(keep) + '\n')
    return dst


def tooldir(d):
    return os.path.join(d, 'tools/ucd-tool')


def load_tool(name, d):
    """Import a script of the tool (not run as __main__) from the copy d."""
    t = tooldir(d)
    os.chdir(t)
    if sys.path[0] != t:
        sys.path.insert(0, t)
    for m in [m for m in sys.modules if m == 'ucd' or m.startswith('ucd.')]:
        del sys.modules[m]
    spec = importlib.util.spec_from_file_location(name.replace('-', '_'), os.path.join(t, name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def run_tool(script, d, env=None, timeout=700):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.pop('UCD_JSON_DIR', None)
    e.update(env or {})
    kw = {}
    if os.getuid() == 0 and can_drop():
        # as a user who owns nothing but the scratch copy
        for b, ds, fs in os.walk(d):
            for x in [b] + [os.path.join(b, f) for f in fs]:
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        e['HOME'] = d
    return subprocess.run([sys.executable, '-B', script], cwd=tooldir(d), env=e, timeout=timeout,
                          stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (300, 301)), **kw)


NOBODY = 65534


@functools.lru_cache(None)
def can_drop():
    try:
        return subprocess.run([sys.executable, '-B', '-c', 'pass'], user=NOBODY, group=NOBODY, extra_groups=[], cwd='/',
                              stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


def tree(d):
    """path -> content hash of every file below d, byte-code caches aside"""
    out = {}
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in ('__pycache__', 'target')]
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()
    return out


# ---- rust ------------------------------------------------------------------

def cargo_env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    e.pop('CARGO_TARGET_DIR', None)
    return e


def cargo_build(d, target, jobs=None):
    """(ok, text)"""
    e = cargo_env()
    e['CARGO_TARGET_DIR'] = target
    cmd = ['cargo', 'build', '--offline', '-q']
    if jobs:
        cmd += ['-j', str(jobs)]
    r = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = r.stdout.decode('utf8', 'replace')
    i = t.find('error')
    return r.returncode == 0, t[max(i, 0):][:3000]


def cargo_crate(d, name, deps, main, opt=1):
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n%s\n'
                '[profile.dev]\nopt-level = %d\ndebug = false\n' % (name, deps, opt))
    with open(os.path.join(d, 'src/main.rs'), 'w') as f:
        f.write(main)


DUMP_MAIN = r'''
#![allow(dead_code)]
#[path = "%s/harness/src/enums.rs"] mod enums;
#[path = "%s/harness/src/api.rs"] mod api;
mod refimpl { #[derive(Clone, Copy)] pub enum Form { Nfd, Nfkd, Nfc, Nfkc } }
use refimpl::Form;
use seshat::unicode::{CodePoint, Ucd};
use std::io::Write;

fn esc(s: &str) -> String { s.chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ") }

fn main() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let norm = std::env::args().nth(1).as_deref() == Some("norm");
    // without "norm": only accessors that read a generated table
    let lists: &[&[api::Bin]] = if norm { &[api::PROPLIST, api::DERIVED, api::EMOJI] } else { &[api::PROPLIST, api::EMOJI] };
    let mut cols: Vec<(&str, Box<dyn Fn(&CodePoint) -> String>)> = vec![];
    for a in api::ENUMS.iter().filter(|a| norm || a.ucd != "InCB") { cols.push((a.ucd, Box::new(move |c| (a.on_cp)(c).to_string()))); }
    for l in lists {
        for b in l.iter().filter(|b| norm || b.name != "comp_ex") { cols.push((b.ucd, Box::new(move |c| if (b.on_cp)(c) { "Y".into() } else { "N".into() }))); }
    }
    cols.push(("ccc", Box::new(|c| (c.ccc() as u8).to_string())));
    cols.push(("na", Box::new(|c| c.na())));
    cols.push(("dm", Box::new(|c| esc(&c.dm()))));
    if norm {
        for (n, f) in [("NFD", Form::Nfd), ("NFKD", Form::Nfkd), ("NFC", Form::Nfc), ("NFKC", Form::Nfkc)] {
            cols.push((n, Box::new(move |c| match std::char::from_u32(c.to_u32()) {
                None => String::new(),
                Some(ch) => esc(&api::norm(&ch.to_string(), f)) })));
        }
        // the composition table
        cols.push(("NFC-of-dm", Box::new(|c| { let d = c.dm(); if d.is_empty() { d } else { esc(&api::norm(&d, Form::Nfc)) } })));
    }
    // normal forms of given texts: "NFC 0041 0301"
    if let Some(f) = std::env::args().nth(2) {
        for (i, l) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let (n, t) = l.split_once(' ').unwrap();
            let t: String = t.split(' ').map(|x| std::char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
            let f = match n { "NFD" => Form::Nfd, "NFKD" => Form::Nfkd, "NFC" => Form::Nfc, _ => Form::Nfkc };
            writeln!(out, "texts\t{:X}\t{:X}\t{}", i, i, esc(&api::norm(&t, f))).unwrap();
        }
    }
    // runs of equal values, one column after the other
    for (name, f) in cols {
        let mut start = 0u32;
        let mut cur: Option<String> = None;
        for c in 0..=0x10FFFFu32 {
            let p = CodePoint::new(c).unwrap();
            let v = f(&p);
            if cur.as_deref() != Some(&v) {
                if let Some(o) = cur { writeln!(out, "{}\t{:X}\t{:X}\t{}", name, start, c - 1, o).unwrap(); }
                start = c;
                cur = Some(v);
            }
        }
        writeln!(out, "{}\t{:X}\t{:X}\t{}", name, start, 0x10FFFF, cur.unwrap()).unwrap();
    }
}
''' % (ROOT, ROOT)


def dump_library(lib, work, norm, jobs=None, texts=None):
    """Build the library in `lib` and print every accessor at every code point.
    -> dict property -> [(start, end, value)]; Bad if it does not build."""
    main = DUMP_MAIN
    cargo_crate(work, 'vdump', 'seshat-unicode = { path = "%s" }' % lib, main)
    ok, text = cargo_build(work, os.path.join(work, 'target'), jobs)
    if not ok:
        raise Bad('the library does not build: ' + text)
    args = ['norm' if norm else '-']
    if texts:
        args.append(os.path.join(work, 'texts'))
        with open(args[1], 'w') as f:
            f.write(''.join(t + '\n' for t in texts))
    r = subprocess.run([os.path.join(work, 'target/debug/vdump')] + args,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(os.path.join(work, 'target'), ignore_errors=True)
    if r.returncode != 0:
        raise Bad('reading the accessors fails: ' + r.stderr.decode('utf8', 'replace')[:600])
    d = collections.OrderedDict()
    for line in r.stdout.decode('utf8').split('\n'):
        if line:
            n, a, b, v = line.split('\t')
            d.setdefault(n, []).append((int(a, 16), int(b, 16), v))
    return d


def first_difference(a, b):
    """First differing run of two dumps, as text, or None."""
    if list(a) != list(b):
        return 'different sets of properties'
    for n in a:
        if a[n] != b[n]:
            fa, fb = flat_at(a[n]), flat_at(b[n])
            for c in sorted(set([x[0] for x in a[n]] + [x[0] for x in b[n]])):
                if fa(c) != fb(c):
                    return (n, c, fa(c), fb(c))
    return None


def flat_at(runs):
    import bisect
    starts = [r[0] for r in runs]
    return lambda c: runs[bisect.bisect_right(starts, c) - 1][2]


# ---- results ---------------------------------------------------------------

class Result:
    """What one section (or one worker's share of it) covered."""

    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.failure = None    # (case, message)
        self.notes = []

    def count(self, case, nontrivial, sample=None):
        self.n += 1
        if nontrivial:
            k = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if k not in self.nontrivial and len(self.samples) < 2:
                t = json.dumps(case) if sample is None else sample
                self.samples.append(t if len(t) < 500 else t[:500] + '...')
            self.nontrivial.add(k)

    def merge(self, o):
        self.n += o.n
        self.nontrivial |= o.nontrivial
        self.samples += o.samples
        self.notes += [x for x in o.notes if x not in self.notes]
        if self.failure is None:
            self.failure = o.failure
        return self


def hyp(res, strategy, check, nontrivial, n, seed):
    """Run `check` (raises Bad) on n generated cases; shrink a failure."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    last = {}
    try:
        # the time limit is for the whole check
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 60 if QUICK else 300
    except (ImportError, AttributeError):
        pass

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(strategy)
    def go(case):
        if not last:
            res.count(case, nontrivial(case))
        try:
            check(case)
        except Bad as e:
            last['f'] = (case, str(e))
            raise
    try:
        go()
    except Bad:
        res.failure = last['f']
    except hypothesis.errors.Flaky:
        if 'f' not in last:
            raise
        res.failure = (last['f'][0], last['f'][1] + ' (not on every run)')
    return res


_slow = []


def _endless(*_):
    _slow.append(1)
    raise Bad('the call does not come to an end')


def guarded(f, *a, **k):
    """Call the code under test; an exception on a well-formed input is a failure."""
    limit = 15 if _slow else 60
    try:
        # user processor seconds; every single call takes a few at most
        signal.signal(signal.SIGVTALRM, _endless)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        return f(*a, **k)
    except (Bad, NoAnswer):
        raise
    except SystemExit as e:
        raise Bad('the tool exits (%s)' % e.code)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Bad('%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _job(a):
    fn, args = a
    try:
        # growth without end becomes a MemoryError
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        r = fn(*args)
        return ('ok', r)
    except NoAnswer as e:
        return ('none', str(e))
    except BaseException:
        return ('none', traceback.format_exc())


def pool(jobs, procs=None):
    """jobs: [(fn, args)] -> results in order; any worker trouble is NoAnswer."""
    procs = procs or min(len(jobs), os.cpu_count() or 2)
    ctx = mp.get_context('fork')
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(procs, mp_context=ctx) as ex:
        out = []
        try:
            for k, v in ex.map(_job, jobs):
                if k != 'ok':
                    raise NoAnswer(v)
                out.append(v)
        except cf.process.BrokenProcessPool:
            raise NoAnswer('a worker process ended')
    return out


def split(fn, total, parts, *extra):
    """Share `total` cases among `parts` workers: [(fn, (n, seed, *extra))]"""
    return [(fn, ((total + parts - 1) // parts, SEED * 1000 + i) + extra) for i in range(parts)]


def finish(pid, rule, assumptions, sections):
    """sections: OrderedDict name -> Result.  Writes evidence, replay; returns rc."""
    total = sum(r.n for r in sections.values())
    distinct = sum(len(r.nontrivial) for r in sections.values())
    samples = []
    for n, r in sections.items():
        for s in r.samples[:3]:
            samples.append({'section': n, 'case': s})
    fails = [(n, r.failure) for n, r in sections.items() if r.failure is not None]
    notes = [x for r in sections.values() for x in r.notes]
    ev = {'property': pid, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': total, 'distinct_nontrivial': distinct, 'rule': rule, 'samples': samples,
                       'sections': {n: {'evaluations': r.n, 'distinct_nontrivial': len(r.nontrivial)} for n, r in sections.items()}},
          'assumptions': assumptions + notes, 'wall_s': round(time.time() - T0, 2), 'violations': len(fails)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for n, (case, msg) in fails:
        v = {'property': pid, 'section': n, 'seed': SEED, 'message': msg, 'case': case}
        t = json.dumps(v, indent=1) + '\n'
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        h = hashlib.sha256(json.dumps([n, case], sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(ROOT, 'replays', '%s-%s.json' % (pid, h))
        with open(p, 'w') as f:
            f.write(t)
        print('%s [%s]: %s' % (pid, n, msg))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    if not fails:
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (pid, total, distinct, time.time() - T0))
    return 1 if fails else 0
