"""C31: regeneration from the vendored data reproduces the library."""
import collections, hashlib, json, os, random, shutil
import tlib
from tlib import Bad, NoAnswer, Result

U = 'src/unicode/ucd/'
GENERATED = [U + x for x in ('gc.rs', 'blk.rs', 'sc.rs', 'age.rs', 'binary_props.rs', 'na/na_table.rs', 'hst.rs', 'emoji_props.rs',
                             'gcb.rs', 'bc.rs', 'ccc.rs', 'dt.rs', 'dm/dm_map.rs', 'ce.rs', 'wb.rs', 'insc.rs')]
KINDS = ['same', 'empty', 'missing', 'truncated', 'appended', 'garbage', 'other', 'stale', 'long', 'crlf', 'dropped']
RULE = ('Every generated file is given a random prior content (kept, emptied, deleted, truncated, with text appended, random bytes, '
        'the content of another generated file, values altered, very long, CRLF, lines dropped), then the generator runs, in some cases '
        'twice, under a random hash seed. Cases are counted per run; non-trivial: at least one file differed before the run.')
ASSUME = ['Regenerated and shipped library are compared by the values of every accessor and normalization form at every code point, not by text.',
          'The runs start from a copy of the working tree; compiler and generated-text determinism are judged byte by byte between runs.']


def damage(path, kind, rnd, others):
    with open(path, 'rb') as f:
        old = f.read()
    n = len(old)
    if kind == 'same':
        return
    if kind == 'missing':
        os.remove(path)
        return
    if kind == 'empty':
        new = b''
    elif kind == 'truncated':
        new = old[:rnd.randrange(n)]
    elif kind == 'appended':
        new = old + b'\npub fn extra() {}\n' * rnd.randrange(1, 4)
    elif kind == 'garbage':
        new = bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 5000)))
    elif kind == 'other':
        with open(rnd.choice(others), 'rb') as f:
            new = f.read()
    elif kind == 'stale':
        lines = old.split(b'\n')
        for _ in range(20):
            i = rnd.randrange(len(lines))
            lines[i], lines[i - 1] = lines[i - 1], lines[i]
        new = b'\n'.join(lines)
    elif kind == 'long':
        new = old + b'// ' + b'x' * (2 * n + 1000) + b'\n'
    elif kind == 'crlf':
        new = old.replace(b'\n', b'\r\n')
    else:
        lines = old.split(b'\n')
        new = b'\n'.join(x for x in lines if rnd.random() > .1)
    with open(path, 'wb') as f:
        f.write(new)


def run_case(base, case):
    """One generator run; -> {path: hash} of the generated files after it."""
    d = os.path.join(base, 'r-%s' % hashlib.sha256(json.dumps(case).encode()).hexdigest()[:10])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(base, 'repo'), d, symlinks=True)
    rnd = random.Random(case['seed'])
    paths = [os.path.join(d, g) for g in GENERATED]
    src = {p: os.path.join(base, 'repo', g) for p, g in zip(paths, GENERATED)}
    for p, g in zip(paths, GENERATED):
        k = case['damage'].get(g, 'same')
        if os.path.exists(p):
            damage(p, k, rnd, [src[x] for x in paths if x != p and os.path.exists(src[x])])
    before = tlib.tree(d)
    out = None
    for i in range(case['runs']):
        r = tlib.run_tool('ucd-tool.py', d, env={'PYTHONHASHSEED': str(case['hash'] + i)})
        if r.returncode:
            raise Bad('the generator fails (run %d): %s' % (i + 1, r.stderr.decode('utf8', 'replace')[-600:]))
        after = tlib.tree(d)
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and p not in GENERATED:
                raise Bad('the generator changes %s' % p)
        now = {g: after.get(g) for g in GENERATED}
        for g in GENERATED:
            if now[g] is None:
                raise Bad('the generator does not write %s' % g)
        if out is not None and out != now:
            raise Bad('a second run changes %s' % [g for g in GENERATED if out[g] != now[g]])
        out = now
    return d, out


def w_case(base, case, clean):
    r = Result()
    r.count(case, any(k != 'same' for k in case['damage'].values()))
    try:
        d, out = run_case(base, case)
        if clean:
            return r, d, out
        shutil.rmtree(d, ignore_errors=True)
        return r, None, out
    except Bad as e:
        r.failure = (case, str(e))
        return r, None, None


def w_dump(lib, work):
    try:
        return tlib.dump_library(lib, work, True, jobs=8), None
    except Bad as e:
        return None, str(e)


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'))
    return base


def compare(ref, gen):
    d = tlib.first_difference(ref, gen)
    if d is None:
        return None
    if isinstance(d, str):
        return d
    return '%s of U+%04X: the shipped library says %r, the regenerated one %r' % d


CLEAN = {'damage': {}, 'seed': 0, 'runs': 1, 'hash': 1}


def gen_cases(n, rnd):
    out = []
    for i in range(n):
        if i == 0:
            dam = {g: 'missing' for g in GENERATED}
        elif i == 1:
            dam = {g: 'long' for g in GENERATED}
        elif i == 2:
            dam = {g: 'empty' for g in GENERATED}
        else:
            dam = {g: rnd.choice(KINDS) for g in GENERATED}
        out.append({'damage': dam, 'seed': rnd.randrange(10 ** 9), 'runs': 2 if i % 3 == 0 else 1, 'hash': rnd.randrange(1, 10 ** 6)})
    return out


def run():
    base = setup()
    rnd = random.Random(tlib.SEED)
    cs = gen_cases(7 if tlib.QUICK else 240, rnd)
    jobs = [(w_dump, (os.path.join(base, 'repo'), os.path.join(base, 'dref'))), (w_case, (base, CLEAN, True))]
    jobs += [(w_case, (base, c, False)) for c in cs]
    res = tlib.pool(jobs, os.cpu_count())
    (ref, err), (r0, d0, out0) = res[0], res[1]
    if ref is None:
        raise NoAnswer('the library in /repo: ' + err)
    sec = collections.OrderedDict()
    sec['vendored-data'] = r0
    r0.nontrivial.add('clean')
    if r0.failure is None:
        gen, err = w_dump(d0, os.path.join(base, 'dgen'))
        msg = err if gen is None else compare(ref, gen)
        r0.notes.append('%d columns of accessor values compared at 1,114,112 code points (%d runs of equal values)'
                        % (len(ref), sum(len(v) for v in ref.values())))
        if msg:
            r0.failure = (CLEAN, msg)
    pr = Result()
    for c, (r, _, out) in zip(cs, res[2:]):
        if r.failure is None and r0.failure is None and out != out0:
            r.failure = (c, 'after these prior contents the generator writes other text in %s' % [g for g in GENERATED if out[g] != out0[g]])
        if r.failure is not None and r0.failure is not None and not r0.failure[0]['damage']:
            r.failure = None      # fails without damage too: reported once
        pr.merge(r)
    if pr.failure is not None:
        pr.failure = shrink(base, pr.failure, out0)
    sec['prior-contents'] = pr
    return sec


def judge(base, case, out0):
    d, out = run_case(base, case)
    shutil.rmtree(d, ignore_errors=True)
    if out0 is not None and out != out0:
        raise Bad('after these prior contents the generator writes other text in %s' % [g for g in GENERATED if out[g] != out0[g]])


def w_judge(base, case, out0):
    try:
        judge(base, case, out0)
        return None
    except Bad as e:
        return str(e)


def shrink(base, failure, out0):
    """one damaged file at a time, in parallel"""
    case, msg = failure
    dam = {g: k for g, k in case['damage'].items() if k != 'same'}
    cand = [dict(case, damage={g: k}) for g, k in dam.items()]
    if cand:
        for c, m in zip(cand, tlib.pool([(w_judge, (base, c, out0)) for c in cand], os.cpu_count())):
            if m:
                return (c, m)
    return (dict(case, damage=dam), msg)


def replay(section, case):
    base = setup()
    if section == 'vendored-data':
        d, _ = run_case(base, case)
        ref, err = w_dump(os.path.join(base, 'repo'), os.path.join(base, 'dref'))
        if ref is None:
            raise NoAnswer(err)
        gen, err = w_dump(d, os.path.join(base, 'dgen'))
        msg = err if gen is None else compare(ref, gen)
        if msg:
            raise Bad(msg)
    else:
        d0, out0 = run_case(base, CLEAN)
        judge(base, case, out0)
