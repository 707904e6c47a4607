"""C30: the table compressor is lossless.

A case is {bs, kind: 'enum'|'bool', default, missing: [[a,b,v]], data: [[a,b,v]]};
values are small integers.  Model: a flat list of 0x110000 values."""
import collections, io, os, random, re, subprocess, contextlib, itertools
from hypothesis import strategies as st
import tlib
from tlib import Bad, NoAnswer, Result, guarded

NV = 12
N = 0x110000
SIZES = sorted([2 ** k for k in range(0, 17)] + [17 * 2 ** k for k in range(0, 17)])
RULE = ('Assignments are generated as runs of values with gaps, cut near block edges, in any block size dividing the code space; '
        'plus assignments whose blocks resemble each other, and ones built to have an exact number of distinct blocks; the values are spelled in three ways. Non-trivial: at least one code point gets a value other than the default, so that at least two different blocks or a mixed block arise.')
ASSUME = ['Data handed to the compressor is sorted and disjoint, as the loader makes it; block sizes divide 0x110000.',
          'rustc and the parser of the emitted arrays are trusted.']


def flat(case):
    f = [case['default']] * N
    for a, b, v in case['missing']:
        f[a:b + 1] = [v] * (b + 1 - a)
    for a, b, v in case['data']:
        f[a:b + 1] = [v] * (b + 1 - a)
    return f


# Spellings of the values: plain ones; ones that run into each other when written
# side by side; ones that differ in case, underscores or digits only.
NAMES = [['V%d' % i for i in range(NV)],
         ['A', 'AA', 'AAA', 'B', 'AB', 'BA', 'AAB', 'BAA', 'ABA', 'BB', 'AAAA', 'ABB'],
         ['Lv', 'LV', 'L_v', 'L_V', 'Lv_', 'Lv0', 'Lv00', 'Lv_0', 'l_v', 'LVT', 'L', 'V']]


def word(case, v):
    return ('true' if v else 'false') if case['kind'] == 'bool' else NAMES[case.get('names', 0)][v]


def build(m, case, name):
    data = [(m.CodePointRange(a, b), word(case, v)) for a, b, v in case['data']]
    miss = None
    if case['missing']:
        miss = m.Missing()
        for a, b, v in case['missing']:
            miss.append(m.CodePointRange(a, b), word(case, v))
    return m.TwoStageTable.make(name, data, case['bs'], word(case, case['default']), miss)


ARR1 = re.compile(r'STAGE_1:\s*&?\[(u8|u16|u32|u64|usize)(?:;\s*(\d+))?\]\s*=\s*&?\[([^\]]*)\]\s*;')
ARR2 = re.compile(r'STAGE_2:[^=]*=\s*&?\[(.*?)\]\s*;', re.S)
BLK = re.compile(r'&?\[([^\]]*)\]')
NEW = re.compile(r'TwoStageTable::new\(.*?,\s*(\d+)\s*\)', re.S)


def parse(text):
    """(index type, stage 1, blocks as tuples of words, block size) or None if
    the text has another shape (then only the compiled reading is used)."""
    t = re.sub(r'//[^\n]*', '', text)
    a, b, c = ARR1.search(t), ARR2.search(t), NEW.search(t)
    if not (a and b and c):
        return None
    try:
        s1 = [int(x) for x in a.group(3).split(',') if x.strip()]
    except ValueError:
        return None
    if a.group(2) and int(a.group(2)) != len(s1):
        raise Bad('emitted index array declares %s entries and has %d' % (a.group(2), len(s1)))
    s2 = [tuple(x.strip() for x in blk.split(',') if x.strip()) for blk in BLK.findall(b.group(1))]
    return a.group(1), s1, s2, int(c.group(1))


BYTES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}


def check_text(case, tst, text):
    """-> number of distinct blocks, or None if the text could not be parsed"""
    p = parse(text)
    if p is None:
        return None
    ty, s1, s2, bs = p
    want = flat(case)
    if bs != case['bs']:
        raise Bad('block size %d in the emitted lookup, tables made with %d' % (bs, case['bs']))
    if len(s1) * bs != N:
        raise Bad('%d index entries of block size %d do not cover the code space' % (len(s1), bs))
    if max(s1) >= len(s2):
        raise Bad('index %d of %d blocks' % (max(s1), len(s2)))
    if max(s1) >= 256 ** BYTES[ty]:
        raise Bad('index %d does not fit %s' % (max(s1), ty))
    if len(set(s2)) != len(s2):
        raise Bad('duplicate blocks')
    pre = '' if case['kind'] == 'bool' else 'P::'
    vals = {pre + word(case, v): v for v in range(2 if case['kind'] == 'bool' else NV)}
    blocks = []
    for b in s2:
        if len(b) != bs:
            raise Bad('a block has %d of %d entries' % (len(b), bs))
        try:
            blocks.append([vals[x] for x in b])
        except KeyError as e:
            raise Bad('emitted value %s' % e)
    for i, k in enumerate(s1):
        if want[i * bs:(i + 1) * bs] != blocks[k]:
            for j in range(bs):
                if want[i * bs + j] != blocks[k][j]:
                    raise Bad('U+%04X was assigned value %d, the emitted tables hold %d'
                              % (i * bs + j, want[i * bs + j], blocks[k][j]))
    for rs in (1, 2):
        size = BYTES[ty] * len(s1) + rs * bs * len(s2)
        got = tst.table_bytes(rs)
        if got != size:
            raise Bad('table_bytes(%d) says %d, the arrays take %d bytes' % (rs, got, size))
    return len(s2)


def emit(m, case, name=None, use=True, prefix=None):
    name = name or ('P' if case['kind'] == 'enum' else 'flag')
    tst = guarded(build, m, case, name)
    if case['kind'] == 'bool':
        text = guarded(tst.to_seshat, use=use, prefix=True, boolean=True)
    else:
        text = guarded(tst.to_seshat)
    return tst, text


def check(m, case):
    tst, text = emit(m, case)
    n = check_text(case, tst, text)
    return n


def check_select(m, case):
    """the selected table: lossless, and no bigger than the candidates it prints"""
    name = 'P' if case['kind'] == 'enum' else 'flag'
    data = [(m.CodePointRange(a, b), word(case, v)) for a, b, v in case['data']]
    miss = None
    if case['missing']:
        miss = m.Missing()
        for a, b, v in case['missing']:
            miss.append(m.CodePointRange(a, b), word(case, v))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        tst = guarded(m.select_minimal_tst, name, data, case['repr'], word(case, case['default']), miss)
    text = guarded(tst.to_seshat, use=True, prefix=True, boolean=True) if case['kind'] == 'bool' else guarded(tst.to_seshat)
    p = parse(text)
    if p is None:
        return
    check_text(dict(case, bs=p[3]), tst, text)
    sizes = {}
    for bs in (64, 128, 256, 512):
        sizes[bs] = guarded(build, m, dict(case, bs=bs), name).table_bytes(case['repr'])
    if tst.table_bytes(case['repr']) != min(sizes.values()):
        raise Bad('selected a table of %d bytes, candidates take %s' % (tst.table_bytes(case['repr']), sizes))


# ---- generators ------------------------------------------------------------

@st.composite
def cases(draw, sizes=tuple(SIZES), maxruns=40):
    bs = draw(st.sampled_from(sizes))
    kind = draw(st.sampled_from(['enum', 'enum', 'bool']))
    val = st.integers(0, 1 if kind == 'bool' else draw(st.sampled_from([1, 3, NV - 1])))
    default = draw(val)

    def runs(limit):
        out, cp = [], 0
        near = st.one_of(st.integers(0, 3), st.integers(0, 3 * bs),
                         st.sampled_from([bs - 1, bs, bs + 1, 2 * bs]), st.integers(0, N // 8))
        for gap, to_edge, ln, v in draw(st.lists(st.tuples(st.one_of(st.just(0), near), st.booleans(), near, val), max_size=limit)):
            a = cp + gap
            if to_edge:
                a = -(-a // bs) * bs
            b = min(a + ln, N - 1)
            if a >= N:
                break
            out.append([a, b, v])
            cp = b + 1
        if draw(st.integers(0, 1)) == 0 and cp < N:
            # up to the end of the code space, or to just before it
            end = max(cp, N - 1 - draw(st.sampled_from([0, 0, 0, 1, 1, 2, bs - 1, bs, bs + 1])))
            out.append([draw(st.sampled_from([max(cp, end), max(cp, end - bs + 1), max(cp, end - bs), cp])), end, draw(val)])
        return out
    data = runs(maxruns)
    missing = []
    if draw(st.integers(0, 2)) == 0:
        for a, ln, v in draw(st.lists(st.tuples(st.integers(0, N - 1), st.one_of(st.integers(0, 2 * bs), st.integers(0, N)), val), max_size=5)):
            missing.append([a, min(a + ln, N - 1), v])
    return {'bs': bs, 'kind': kind, 'default': default, 'missing': missing, 'data': data, 'repr': draw(st.sampled_from([1, 2, 4])),
            'names': draw(st.sampled_from([0, 0, 1, 2]))}


@st.composite
def alike(draw):
    """Assignments of few blocks that resemble each other: the same values in another
    order, shifted, mirrored, with one entry changed, runs of other lengths, or the
    same text when written side by side."""
    bs = draw(st.sampled_from([b for b in SIZES if 4 <= b <= 4352]))
    kind = draw(st.sampled_from(['enum', 'enum', 'enum', 'bool']))
    top = 1 if kind == 'bool' else draw(st.sampled_from([1, 2, 5, NV - 1]))
    val = st.integers(0, top)
    base = []
    for v, ln in draw(st.lists(st.tuples(val, st.one_of(st.just(1), st.integers(1, 3), st.integers(1, bs))), min_size=1, max_size=8)):
        base += [v] * ln
    base = (base + [draw(val)] * bs)[:bs]
    if kind == 'enum' and top == NV - 1 and draw(st.booleans()):
        at = draw(st.integers(0, bs - 2))
        base[at:at + 2] = draw(st.sampled_from([[4, 0], [0, 5], [0, 1], [1, 1], [8, 0], [1, 3]]))
    same = {(4, 0): (0, 5), (0, 5): (4, 0), (1, 1): (0, 2), (0, 2): (2, 0), (0, 1): (1, 0), (8, 0): (4, 1), (1, 3): (0, 4)}
    blocks = [base]
    for how, i, j, v in draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, bs - 1), st.integers(0, bs - 1), val), min_size=2, max_size=8)):
        b = list(draw(st.sampled_from(blocks)))
        if how == 0:
            b[i], b[j] = b[j], b[i]
        elif how == 1:
            b = b[1:] + b[:1]
        elif how == 2:
            b.reverse()
        elif how == 3:
            b[i] = v
        elif how == 4:
            b[-1] = v
        elif how == 5:
            b[0] = v
        elif how == 6 and kind == 'enum':
            for k in range(bs - 1):
                if (b[k], b[k + 1]) in same:
                    b[k], b[k + 1] = same[b[k], b[k + 1]]
                    break
        elif how == 7:
            # one run longer, its neighbour shorter
            for k in range(i, bs - 1):
                if b[k] != b[k + 1]:
                    b[k + 1] = b[k]
                    break
        else:
            b.sort()
        blocks.append(b)
    data = []
    at = draw(st.sampled_from([0, 0, 1, N // bs // 2, N // bs - 12])) if N // bs > 24 else 0
    for k in draw(st.lists(st.integers(0, len(blocks) - 1), min_size=2, max_size=12)):
        if at < N // bs:
            for v, g in itertools.groupby(range(bs), lambda x: blocks[k][x]):
                g = list(g)
                data.append([at * bs + g[0], at * bs + g[-1], v])
        at += 1
    return {'bs': bs, 'kind': kind, 'default': 0, 'missing': [], 'data': data, 'repr': 1, 'names': draw(st.sampled_from([0, 1, 1, 2]))}


def exact(nblocks, bs, seed, kind='enum', tail=None):
    """An assignment with exactly `nblocks` distinct blocks of size bs."""
    rnd = random.Random(seed)
    base = 2 if kind == 'bool' else NV
    total = N // bs
    nblocks = min(nblocks, total, base ** bs)
    digits = 1
    while base ** digits < nblocks:
        digits += 1
    order = list(range(nblocks))
    rnd.shuffle(order)
    order += [rnd.randrange(nblocks) for _ in range(min(total - nblocks, 50))]
    data = []
    for i, b in enumerate(order):
        off = 0
        start = i * bs
        while off < digits:
            v = b // base ** off % base
            if v or rnd.random() < .3:
                data.append([start + off, start + off, v])
            off += 1
    return {'bs': bs, 'kind': kind, 'default': 0, 'missing': [], 'data': data, 'repr': 1, 'exact': [nblocks, bs, seed]}


def small(case):
    """replayable form of an exact case"""
    return {'exact': case['exact'], 'kind': case['kind']} if 'exact' in case else case


def full(case):
    return exact(case['exact'][0], case['exact'][1], case['exact'][2], case['kind']) if 'exact' in case and 'bs' not in case else case


# ---- compiled reading ------------------------------------------------------

COMPILE_MAIN = '''#![allow(dead_code, non_snake_case, unused)]
#[path = "%s/src/collections.rs"] pub mod collections;
pub mod unicode { pub mod props {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum P { %s }
} }
%s
fn runs<T: PartialEq + Copy + std::fmt::Debug>(n: usize, f: fn(u32) -> T) {
    let mut start = 0u32; let mut cur = f(0);
    for c in 1..0x110000u32 { let v = f(c); if v != cur { println!("{} {} {} {:?}", n, start, c - 1, cur); start = c; cur = v; } }
    println!("{} {} {} {:?}", n, start, 0x10FFFF, cur);
}
fn main() { %s }
'''


def compiled(base, ver, group):
    """Compile the emitted text of every case; compare all lookups.
    group: list of cases, or of lists of bool cases sharing one module."""
    d = os.path.join(base, 'c-%d-%d' % (os.getpid(), random.getrandbits(40)))
    m = tool(base)
    mods, calls, want = [], [], {}
    n = 0
    for i, case in enumerate(group):
        parts = case if isinstance(case, list) else [case]
        text = ''
        for k, c in enumerate(parts):
            name = 'P' if c['kind'] == 'enum' else ['flag', 'e_x', 'zz'][k]
            _, t = emit(m, full(c), name, use=(k == 0))
            text += t
            calls.append('runs(%d, m%d::%s);' % (n, i, name.lower()))
            want[n] = full(c)
            n += 1
        mods.append('mod m%d {\n%s\n}\n' % (i, text))
    tlib.cargo_crate(d, 'vc30', 'num = "0.3.0"', COMPILE_MAIN % (d, ', '.join(x for n in NAMES for x in n), '\n'.join(mods), ' '.join(calls)), opt=0)
    with open('/repo/src/collections.rs') as f:
        src = f.read()
    with open(os.path.join(d, 'src/collections.rs'), 'w') as f:
        f.write(src)
    ok, text = tlib.cargo_build(d, os.path.join(d, 'target'))
    if not ok:
        raise Bad('the emitted source does not compile: ' + text)
    r = subprocess.run([os.path.join(d, 'target/debug/vc30')], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if r.returncode:
        raise Bad('lookup in the emitted tables fails: ' + r.stderr.decode()[:500])
    got = {k: [] for k in want}
    for line in r.stdout.decode().split('\n'):
        if line:
            k, a, b, v = line.split()
            got[int(k)].append((int(a), int(b), v))
    for k, c in want.items():
        f = flat(c)
        for a, b, v in got[k]:
            v = int(v == 'true') if c['kind'] == 'bool' else NAMES[c.get('names', 0)].index(v)
            if f[a:b + 1] != [v] * (b + 1 - a):
                j = next(x for x in range(a, b + 1) if f[x] != v)
                raise Bad('U+%04X was assigned value %d, lookup in the compiled tables gives %d (block size %d)' % (j, f[j], v, c['bs']))


_tools = {}


def tool(base):
    if base not in _tools:
        _tools[base] = tlib.load_tool('ucd-tool', os.path.join(base, 'repo'))
    os.chdir(tlib.tooldir(os.path.join(base, 'repo')))
    return _tools[base]


def mixed(case):
    return any(v != case['default'] for _, _, v in case['data']) or len(set(flat(case))) > 1


def w_text(n, seed, base):
    m = tool(base)
    return tlib.hyp(Result(), cases(), lambda c: check(m, c), mixed, n, seed)


def w_alike(n, seed, base):
    m = tool(base)
    return tlib.hyp(Result(), alike(), lambda c: check(m, c), mixed, n, seed)


def edge_cases():
    """Gaps and runs that begin and end just before, at and just after the edges
    of a block and of the code space."""
    out = []
    for kind, bs in [('enum', 64), ('bool', 128), ('enum', 256), ('enum', 512), ('enum', 1)]:
        ends = [0, 1, 2, bs - 1, bs, bs + 1]
        for e in sorted(set(ends)):
            for miss in ([], [[N - bs - 2, N - 1, 1]], [[0, bs, 1], [N - 1, N - 1, 1]]):
                # nothing assigned before e and after N-1-e
                out.append({'bs': bs, 'kind': kind, 'default': 0, 'missing': miss, 'data': [[e, N - 1 - e, 1]], 'repr': 1})
                out.append({'bs': bs, 'kind': kind, 'default': 1, 'missing': [[a, b, 0] for a, b, _ in miss],
                            'data': [[e, e, 0], [N - 1 - e, N - 1 - e, 0]], 'repr': 2})
        for d in (-1, 0, 1):
            for ln in (1, 2, bs - 1, bs, bs + 1, 2 * bs):
                a = 3 * bs + d
                if ln > 0 and a >= 0:
                    out.append({'bs': bs, 'kind': kind, 'default': 0, 'missing': [[a + ln, a + 2 * ln, 1]] if d else [], 'data': [[a, a + ln - 1, 1], [a + ln + bs, a + ln + bs, 1]], 'repr': 1})
    return out


def w_edges(n, seed, base):
    m, r = tool(base), Result()
    part = seed % 1000
    cs = edge_cases()
    for c in cs[part * n:(part + 1) * n]:
        r.count(c, True)
        try:
            check(m, c)
        except Bad as e:
            r.failure = (c, str(e))
            break
    return r


def w_select(n, seed, base):
    m = tool(base)
    if not hasattr(m, 'select_minimal_tst'):
        return Result()
    return tlib.hyp(Result(), cases(sizes=(64, 128, 256, 512), maxruns=60), lambda c: check_select(m, c), mixed, n, seed)


def w_exact(base, k, bs, kind, seed):
    m = tool(base)
    r = Result()
    c = exact(k, bs, seed, kind)
    r.count(small(c), True)
    try:
        check(m, c)
    except Bad as e:
        r.failure = (small(c), str(e))
    return r


def w_compiled(base, group):
    r = Result()
    for c in group:
        r.count(c, True)
    try:
        compiled(base, None, group)
        return r
    except Bad as e:
        fail = (group, str(e))
    # shrink: one case alone, then fewer runs
    tries = 0
    for c in group:
        try:
            compiled(base, None, [c])
        except Bad as e:
            fail = ([c], str(e))
            break
    g, msg = fail
    if len(g) == 1 and isinstance(g[0], dict) and 'data' in g[0]:
        c = dict(g[0])
        step = max(len(c['data']) // 2, 1)
        while step and tries < 12:
            for i in range(0, len(c['data']), step):
                cand = dict(c, data=c['data'][:i] + c['data'][i + step:])
                tries += 1
                try:
                    compiled(base, None, [cand])
                except Bad as e:
                    c, msg = cand, str(e)
                    break
            else:
                step //= 2
        g = [c]
    r.failure = (g, msg)
    return r


def sample_cases(n, seed, sizes):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    out = []

    @hypothesis.seed(seed)
    @settings(max_examples=4 * n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(cases(sizes=sizes))
    def go(c):
        out.append(c)
    go()
    # the first cases are the simplest ones
    return [c for c in out if mixed(c)][-n:]


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'), src=False)
    return base


def run():
    base = setup()
    q = tlib.QUICK
    s = tlib.SEED
    jobs = []
    tag = []

    def add(name, js):
        for j in js:
            jobs.append(j)
            tag.append(name)
    # heavy ones first
    ex = []
    for kind, bs, ks in [('enum', 16, [65535, 65536, 65537]), ('enum', 64, [255, 256, 257]), ('enum', 4, [255, 256, 257, 20000]), ('bool', 16, [65535, 65536]),
                         ('enum', 128, [256, 257, 8704]), ('bool', 128, [256, 257]), ('enum', 512, [2176]), ('bool', 17, [65536, 65537])]:
        for k in ks:
            ex.append((w_exact, (base, k, bs, kind, s)))
    if not q:
        rnd = random.Random(s)
        for _ in range(300):
            bs = rnd.choice(SIZES)
            k = rnd.choice([254, 255, 256, 257, 258, 65535, 65536, 65537, rnd.randrange(1, N // bs + 1)])
            if k <= N // bs:
                ex.append((w_exact, (base, k, bs, rnd.choice(['enum', 'bool']), rnd.randrange(10 ** 6))))
    add('exact-block-count', ex)
    add('edges', tlib.split(w_edges, len(edge_cases()), 16, base))
    comp = []
    for g in range(4 if q else 60):
        cs = sample_cases(14, s * 77 + g, (64, 128, 256, 512) if g % 2 == 0 else tuple(x for x in SIZES if 16 <= x <= 4096))
        bools = [c for c in cs if c['kind'] == 'bool']
        grp = [c for c in cs if c['kind'] == 'enum']
        grp += [bools[i:i + 3] for i in range(0, len(bools), 3)]
        grp += [small(exact([256, 257][g % 2], 64, g)), small(exact([257, 256][g % 2], 128, g, 'bool'))]
        comp.append((w_compiled, (base, grp)))
    add('compiled', comp)
    add('emitted-text', tlib.split(w_text, 480 if q else 24000, 16 if q else 64, base))
    add('alike-blocks', tlib.split(w_alike, 240 if q else 24000, 16 if q else 64, base))
    add('selected', tlib.split(w_select, 32 if q else 1600, 8 if q else 32, base))
    out = collections.OrderedDict()
    for name, r in zip(tag, tlib.pool(jobs, os.cpu_count())):
        out.setdefault(name, Result()).merge(r)
    return out


def replay(section, case):
    base = setup()
    m = tool(base)
    if section == 'compiled':
        compiled(base, None, case)
    elif section == 'selected':
        check_select(m, case)
    else:
        check(m, full(case))
