"""C34: the library built from generated tables reports what the data assigns.

A case is a list of changes to the vendored data files; the model reads the
changed files itself."""
import collections, json, os, random, re, shutil
import tlib
from tlib import Bad, NoAnswer, Result

MAX = 0x10FFFF
RULE = ('Random changes to the vendored data set (values replaced, ranges split, cut, removed, added in gaps, entries reordered, names, '
        'decompositions, exclusions and default lines changed) go through the whole generator; the library is built from its output and every '
        'accessor over a generated table is read at every code point, and the mappings whose normal forms follow from the data alone are decomposed and composed. Cases are data sets; non-trivial: at least one change in every data file.')
ASSUME = ['Values stay within those the library has variants for; name and decomposition changes stay outside the ranges derived by rule.',
          "The model's own reading of the data files and rustc are trusted."]

E = 'extracted/'
RANGES = {  # file -> (column, how values are written)
    E + 'DerivedGeneralCategory.json': 'gc', 'Blocks.json': 'blk', 'Scripts.json': 'sc', 'DerivedAge.json': 'age',
    'HangulSyllableType.json': 'hst', 'auxiliary/GraphemeBreakProperty.json': 'GCB', E + 'DerivedBidiClass.json': 'bc',
    E + 'DerivedCombiningClass.json': 'ccc', E + 'DerivedDecompositionType.json': 'dt', 'auxiliary/WordBreakProperty.json': 'WB',
    'IndicSyllabicCategory.json': 'InSC'}
GROUPED = ['PropList.json', 'emoji/emoji-data.json']
MISSING = E + 'DerivedBidiClass.missing.json'
NAMES = E + 'DerivedName.json'
UDATA = 'UnicodeData.json'
CE = 'CompositionExclusions.json'
DEFAULT = {'blk': 'NB', 'sc': 'Zzzz', 'age': 'NA', 'hst': 'NA', 'GCB': 'XX', 'bc': 'L', 'ccc': '0', 'dt': 'None', 'WB': 'XX', 'InSC': 'Other'}
RULED = [(0xAC00, 0xD7A3), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0x20000, 0x2A6DF), (0x2A700, 0x2B739), (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1),
         (0x2CEB0, 0x2EBE0), (0x2EBF0, 0x2EE5D), (0x30000, 0x3134A), (0x31350, 0x323AF), (0x17000, 0x187F7), (0x18D00, 0x18D08), (0x18B00, 0x18CD5),
         (0x1B170, 0x1B2FB), (0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x2F800, 0x2FA1D)]
VERSIONS = ['13.0.0', '14.0.0', '15.0.0']
HANGUL = (0xAC00, 0xD7AF)


def rng(k):
    a = k.split('..')
    return int(a[0], 16), int(a[-1], 16)


def key(a, b):
    return '%04X' % a if a == b else '%04X..%04X' % (a, b)


def ruled(c):
    return any(a <= c <= b for a, b in RULED)


class Data:
    """The data files of one data set, as Python objects."""

    def __init__(self, folder):
        self.folder = folder
        self.d = {}
        for f in list(RANGES) + GROUPED + [MISSING, NAMES, UDATA, CE, 'PropertyValueAliases.json', 'PropertyAliases.json']:
            with open(os.path.join(folder, f)) as h:
                self.d[f] = json.load(h)

    def write(self, folder):
        for f, v in self.d.items():
            with open(os.path.join(folder, f), 'w') as h:
                json.dump(v, h, indent=2)
                h.write('\n')

    # -- changes ------------------------------------------------------------
    def apply(self, op):
        f, what, a = op
        v = self.d[f]
        if what == 'version':       # the file of another Unicode version, where there is one
            p = os.path.join(tlib.tooldir(tlib.REPO), 'data', a, f)
            if os.path.exists(p):
                with open(p) as h:
                    old = json.load(h)
                # properties that did not exist yet keep what they have
                self.d[f] = {n: old.get(n, v[n]) for n in v} if f in GROUPED else old
            return
        if f in RANGES or f == NAMES or f == MISSING:
            if what == 'shuffle':
                ks = list(v)
                random.Random(a).shuffle(ks)
                self.d[f] = {k: v[k] for k in ks}
            elif what == 'set':
                if a[0] in v:
                    v[a[0]] = a[1]
            elif what == 'add':
                if free(v, a[0]) or f == MISSING:
                    v[a[0]] = a[1]
                    if f == NAMES:
                        self.d[f] = {k: v[k] for k in sorted(v, key=rng)}
            elif what == 'remove':
                v.pop(a, None)
            elif what == 'replace':       # a range by parts of it
                if a[0] in v:
                    self.d[f] = {k2: v2 for k, x in v.items() for k2, v2 in (a[1] if k == a[0] else [[k, x]])}
        elif f in GROUPED:
            n, r = a
            if what == 'remove' and r in v[n]:
                v[n].remove(r)
            elif what == 'add' and free(v[n], r):
                v[n].append(r)
            elif what == 'shuffle':
                random.Random(r).shuffle(v[n])
        elif f == UDATA:
            if a[0] in v:
                v[a[0]]['dm'] = a[1]
            elif what == 'add' and free(v, a[0]):
                v[a[0]] = {'na': 'ADDED', 'gc': 'So', 'ccc': '0', 'bc': 'ON', 'dm': a[1]}
                self.d[f] = {k: v[k] for k in sorted(v, key=rng)}
        elif f == CE:
            if what == 'remove' and a in v:
                v.remove(a)
            elif what == 'add' and a not in v:
                v.append(a)

    # -- model --------------------------------------------------------------
    def columns(self):
        """column -> runs, as the data says"""
        al = self.d['PropertyValueAliases.json']
        out = {}
        for f, col in RANGES.items():
            conv = values(col, al)
            rs = sorted((rng(k), conv(v)) for k, v in self.d[f].items())
            if col == 'bc':
                flat = ['L'] * (MAX + 1)
                inv = {v: k for k, v in reversed(list(al['bc'].items()))}
                for k, v in self.d[MISSING].items():
                    a, b = rng(k)
                    flat[a:b + 1] = [inv[v]] * (b + 1 - a)
                for (a, b), v in rs:
                    flat[a:b + 1] = [v] * (b + 1 - a)
                out[col] = rle(flat)
            else:
                out[col] = fill([(a, b, v) for (a, b), v in rs], DEFAULT.get(col))
        for f in GROUPED:
            for n, l in self.d[f].items():
                out[n] = fill(sorted(rng(r) + ('Y',) for r in l), 'N')
        out['Composition_Exclusion'] = fill(sorted((int(c, 16), int(c, 16), 'Y') for c in self.d[CE]), 'N')
        out['na'] = fill(sorted(rng(k)[:1] * 2 + (v,) for k, v in self.d[NAMES].items() if not ruled(rng(k)[0])) +
                         [], '')
        dm = []
        for k, p in self.d[UDATA].items():
            t = re.sub(r'^<[^>]*>\s*', '', p['dm'])
            if t:
                c = rng(k)[0]
                dm.append((c, c, ' '.join('%04X' % int(x, 16) for x in t.split(' '))))
        out['dm'] = fill(sorted(dm), '')
        return out


def normal_forms(data, want):
    """[(form, text, wanted)] for those decompositions whose normal forms follow from the data alone"""
    at = {c: tlib.flat_at(want[c]) for c in ('dt', 'ccc', 'dm')}
    tag = {}
    maps = {}
    for k, p in data.d[UDATA].items():
        c = rng(k)[0]
        if p['dm']:
            m = re.match('<(.*?)>', p['dm'])
            tag[c] = m.group(1) if m else ''
            maps[c] = tuple(int(x, 16) for x in at['dm'](c).split(' '))
    ce = {int(c, 16) for c in data.d[CE]}

    def jamo(c):
        return 0x1100 <= c <= 0x11FF or 0xA960 <= c <= 0xA97F or 0xAC00 <= c <= 0xD7FF or 0xD800 <= c <= 0xDFFF

    def plain(c):
        return c not in maps and at['dt'](c) == 'None' and not jamo(c)
    same = collections.Counter(m for c, m in maps.items() if not tag[c])
    out = []
    for c, m in sorted(maps.items()):
        if jamo(c) or not all(plain(x) for x in m):
            continue
        text = ' '.join('%04X' % x for x in m)
        if not tag[c] and at['dt'](c) == 'Can':
            if len(m) == 2 and at['ccc'](m[0]) == '0' and at['ccc'](c) == '0':
                out.append(('NFD', '%04X' % c, text))
                if same[m] == 1:
                    out.append(('NFC', text, text if c in ce else '%04X' % c))
        elif tag[c] and at['dt'](c).lower() not in ('none', 'can') and at['ccc'](c) == '0' and all(at['ccc'](x) == '0' for x in m):
            out.append(('NFKD', '%04X' % c, text))
            out.append(('NFD', '%04X' % c, '%04X' % c))
    return out


def free(keys, k):
    a, b = rng(k)
    return all(y < a or b < x for x, y in map(rng, keys))


def values(col, al):
    if col in ('gc', 'hst', 'bc', 'ccc', 'InSC'):
        return lambda v: v
    if col == 'age':
        return lambda v: v
    if col == 'blk':
        by = {}
        for ab, long in al['blk'].items():
            by.setdefault(re.sub('[ _-]', '', long).lower(), ab)
        return lambda v: by[re.sub('[ _-]', '', v).lower()]
    inv = {}
    for ab, long in al[col].items():
        inv.setdefault(long, ab)
    return lambda v: inv[v]


def rle(flat):
    out, s = [], 0
    for i in range(1, len(flat)):
        if flat[i] is not flat[s] and flat[i] != flat[s]:
            out.append((s, i - 1, flat[s]))
            s = i
    out.append((s, len(flat) - 1, flat[s]))
    return out


def fill(rs, default):
    out, c = [], 0

    def put(a, b, v):
        if out and out[-1][2] == v:
            out[-1] = (out[-1][0], b, v)
        else:
            out.append((a, b, v))
    for a, b, v in rs:
        if a > c:
            if default is None:
                raise NoAnswer('model: no value for U+%04X' % c)
            put(c, a - 1, default)
        put(a, b, v)
        c = b + 1
    if c <= MAX:
        put(c, MAX, default)
    return out


def cut(runs, holes):
    """runs with the holes blanked out"""
    out = []
    for a, b, v in runs:
        parts = [(a, b)]
        for x, y in holes:
            parts = [p for s, e in parts for p in ((s, min(e, x - 1)), (max(s, y + 1), e)) if p[0] <= p[1]]
        out += [(s, e, v) for s, e in parts]
    return fill([(s, e, v) for s, e, v in sorted(out + [(x, y, '*') for x, y in holes])], '*')


COLFILE = {**{c: [f] for f, c in RANGES.items()}, 'na': [NAMES], 'dm': [UDATA], 'Composition_Exclusion': [CE]}
COLFILE['bc'] = COLFILE['bc'] + [MISSING]


def compare(want, got):
    """-> (column, message) or None"""
    for col, w in want.items():
        if col not in got:
            continue          # no accessor for it
        g = got[col]
        if col == 'na':
            w, g = cut(w, RULED), cut(g, RULED)
        if col == 'dm':
            w, g = cut(w, [HANGUL]), cut(g, [HANGUL])
        if w != g:
            fw, fg = tlib.flat_at(w), tlib.flat_at(g)
            for c in sorted({x[0] for x in w} | {x[0] for x in g}):
                if fw(c) != fg(c):
                    return col, '%s of U+%04X: the data says %r, the library built from the generated tables %r' % (col, c, fw(c), fg(c))
    return None


# ---- generation of changes -------------------------------------------------

def word(rnd):
    return ' '.join(''.join(rnd.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(rnd.randrange(1, 9))) + rnd.choice(['', '', '-' + 'XYZ'[:rnd.randrange(1, 4)]])
                    for _ in range(rnd.choice([rnd.randrange(1, 9), rnd.randrange(1, 9), rnd.randrange(1, 9), rnd.randrange(10, 60)])))


def changes(base, rnd, level):
    """A list of changes touching every file; level: about how many per file."""
    ops = []
    used = {}
    for f, col in list(RANGES.items()):
        v = base.d[f]
        ks = list(v)
        vals = sorted(set(v.values()))
        n = rnd.randrange(1, level + 1)
        for k in rnd.sample(ks, min(n, len(ks))):
            a, b = rng(k)
            r = rnd.random()
            if r < .35 or (a == b and r < .7):
                ops.append([f, 'set', [k, rnd.choice(vals)]])
            elif a < b and r < .75:
                # split, or cut with a gap where gaps are allowed
                m = rnd.choice([a, b - 1, rnd.randrange(a, b)])
                parts = [[key(a, m), rnd.choice(vals)], [key(m + 1, b), v[k]]]
                rnd.shuffle(parts)
                if col != 'gc' and rnd.random() < .4:
                    parts = parts[:1]
                ops.append([f, 'replace', [k, parts]])
            elif col != 'gc':
                ops.append([f, 'remove', k])
        if col != 'gc':
            for _ in range(rnd.randrange(0, 4)):
                a = rnd.choice([rnd.randrange(MAX), 0, MAX, MAX - 1, 0x1FFFF, rnd.randrange(0x1000) * 128 + rnd.choice([-1, 0, 1]), rnd.randrange(0xE0000, MAX)])
                a = min(max(a, 0), MAX)
                ops.append([f, 'add', [key(a, min(MAX, a + rnd.choice([0, 0, 1, 63, 64, 127, 128, 255, 1000, 70000]))), rnd.choice(vals)]])
        if rnd.random() < .5:
            ops.append([f, 'shuffle', rnd.randrange(10 ** 6)])
    for f in GROUPED:
        for n, l in base.d[f].items():
            for r in rnd.sample(l, min(len(l), rnd.randrange(0, 3))):
                ops.append([f, 'remove', [n, r]])
            for _ in range(rnd.randrange(0, 3)):
                a = rnd.choice([rnd.randrange(MAX), 0, MAX, rnd.randrange(0x800)])
                ops.append([f, 'add', [n, key(a, min(MAX, a + rnd.choice([0, 0, 1, 200, 5000])))]])
            if rnd.random() < .3:
                ops.append([f, 'shuffle', [n, rnd.randrange(10 ** 6)]])
    longs = sorted(set(base.d['PropertyValueAliases.json']['bc'].values()))
    for k in rnd.sample(list(base.d[MISSING]), 3):
        ops.append([MISSING, rnd.choice(['remove', 'set']), k])
        if ops[-1][1] == 'set':
            ops[-1][2] = [k, rnd.choice(longs)]
    for _ in range(3):
        a = rnd.randrange(MAX)
        ops.append([MISSING, 'add', [key(a, min(MAX, a + rnd.choice([0, 15, 300, 70000]))), rnd.choice(longs)]])
    for k in rnd.sample([k for k in base.d[NAMES] if not ruled(rng(k)[0])], level):
        ops.append([NAMES, rnd.choice(['set', 'set', 'remove']), k])
        if ops[-1][1] == 'set':
            ops[-1][2] = [k, word(rnd)]
    edges = [x for a, b in RULED for x in (a - 1, b + 1)] + [0, 0x1F, 0x7F, 0x9F, 0xD7FB, 0xE000, 0xFFFF, 0x10000, 0x1FFFE, MAX]
    for c in edges + [rnd.randrange(MAX + 1) for _ in range(level)]:
        if not ruled(c) and not 0xD800 <= c < 0xE000 and rnd.random() < .8:
            ops.append([NAMES, 'add', ['%04X' % c, word(rnd)]])
        if c > 0x9F and not 0xAC00 <= c < 0xE000 and rnd.random() < .6:      # controls have no mapping
            ops.append([UDATA, 'add', ['%04X' % c, ' '.join('%04X' % rnd.randrange(0xE000, MAX) for _ in range(rnd.randrange(1, 4)))]])
            ops.append([E + 'DerivedDecompositionType.json', 'add', ['%04X' % c, 'Canonical']])
    tags = sorted({m.group(0) for p in base.d[UDATA].values() for m in [re.match('<.+> ', p['dm'])] if m})
    pool = [k for k in base.d[UDATA] if '..' not in k and not (0xAC00 <= int(k, 16) <= 0xDFFF) and not base.d[UDATA][k]['na'].endswith(('First>', 'Last>'))]
    for k in rnd.sample(pool, level):
        seq = ' '.join('%04X' % rnd.choice([rnd.randrange(0x20, 0xD800), rnd.randrange(0xE000, MAX + 1), rnd.randrange(0x20, 0x300)]) for _ in range(rnd.choice([1, 1, 2, 2, 3, 5, 18, 19, 20, rnd.randrange(4, 34), rnd.randrange(17, 140)])))
        t = rnd.random()
        ops.append([UDATA, 'set', [k, '' if t < .3 else (rnd.choice(tags) if t < .6 else '') + seq]])
    dt = tlib.flat_at(fill(sorted(rng(k) + (v,) for k, v in base.d[E + 'DerivedDecompositionType.json'].items()), 'None'))
    kinds = sorted(set(base.d[E + 'DerivedDecompositionType.json'].values()))
    for k in rnd.sample([k for k in pool if dt(int(k, 16)) == kinds[0]], level):
        # another composition, beginning anywhere in the code space
        a = rnd.choice([rnd.randrange(0x20, 0xD800), rnd.randrange(0xE000, MAX + 1), rnd.randrange(0xE000, 0x10000), rnd.randrange(0x10000, 0x12000)])
        ops.append([UDATA, 'set', [k, '%04X %04X' % (a, rnd.choice([0x300, 0x301, 0x338, a, rnd.randrange(0x20, 0xD800), rnd.randrange(0xE000, MAX + 1)]))]])
    for c in rnd.sample(base.d[CE], min(3, len(base.d[CE]))):
        ops.append([CE, 'remove', c])
    for _ in range(4):
        ops.append([CE, 'add', '%04X' % rnd.choice([rnd.randrange(0x20, MAX + 1), MAX, 0x20, 0xFFFF])])
    return ops


def judge(base, ops, name, jobs=2):
    """raise Bad if the property fails for the data set with these changes"""
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(base, 'repo'), d)
    folder = os.path.join(tlib.tooldir(d), 'data', tlib.version_dir())
    data = Data(folder)
    for op in ops:
        data.apply(op)
    data.write(folder)
    r = tlib.run_tool('ucd-tool.py', d, env={'PYTHONHASHSEED': str(len(ops))})
    if r.returncode:
        raise Bad('the generator fails: ' + r.stderr.decode('utf8', 'replace')[-600:])
    want = data.columns()
    forms = normal_forms(data, want)
    got = tlib.dump_library(d, os.path.join(base, name + '-dump'), False, jobs, ['%s %s' % x[:2] for x in forms])
    bad = compare(want, got)
    for (f, t, w), g in zip(forms, [] if bad else got['texts']):
        if g[2] != w:
            bad = 'dm', '%s of <%s>: by the data <%s>, with the library built from the generated tables <%s>' % (f, t, w, g[2])
            break
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(os.path.join(base, name + '-dump'), ignore_errors=True)
    if bad:
        e = Bad(bad[1])
        e.col = bad[0]
        raise e
    return len(want), len(forms)


def w_case(base, ops, name):
    r = Result()
    files = {f: sum(op[0] == f for op in ops) for f in sorted({op[0] for op in ops})}
    r.count(ops, len(files) >= 16, json.dumps({'changes per file': files, 'some': ops[::max(1, len(ops) // 4)]}))
    try:
        judge(base, ops, name)
    except Bad as e:
        col = getattr(e, 'col', None)
        files = COLFILE.get(col) or (GROUPED if col else None)
        r.failure = (ops, str(e))
        r.files = files
    return r


def w_try(base, ops, name):
    try:
        judge(base, ops, name, 1)
    except Bad as e:
        return str(e)
    return None


def shrink(base, ops, msg, files):
    import time
    budget = 400 if tlib.QUICK else 3000
    if files:
        cand = [op for op in ops if op[0] in files]
        m = w_try(base, cand, 's0')
        if m:
            ops, msg = cand, m
    n = 8
    while len(ops) > 1 and time.time() - tlib.T0 < budget:
        step = max(1, -(-len(ops) // n))
        cands = [ops[i:i + step] for i in range(0, len(ops), step)]
        cands += [ops[:i] + ops[i + step:] for i in range(0, len(ops), step)] if len(cands) <= 4 else []
        res = tlib.pool([(w_try, (base, c, 's%d' % i)) for i, c in enumerate(cands)], os.cpu_count())
        ok = [(len(c), c, m) for c, m in zip(cands, res) if m and len(c) < len(ops)]
        if not ok:
            break
        _, ops, msg = min(ok, key=lambda x: x[0])
    return ops, msg


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'))
    return base


def run():
    base = setup()
    data = Data(os.path.join(tlib.tooldir(os.path.join(base, 'repo')), 'data', tlib.version_dir()))
    rnd = random.Random(tlib.SEED * 31)
    n = 6 if tlib.QUICK else 160
    jobs = []
    for i in range(n):
        lvl = 3 if i == 0 else rnd.choice([12, 40, 200])
        jobs.append((w_case, (base, changes(data, rnd, lvl), 'd%d' % i)))
    # the files of earlier versions kept beside, all or some of them, untouched or changed
    files = [f for f in data.d if 'Aliases' not in f]
    for i in range(4 if tlib.QUICK else 40):
        v = VERSIONS[i % len(VERSIONS)]
        some = files if i < len(VERSIONS) else rnd.sample(files, rnd.randrange(1, len(files)))
        jobs.append((w_case, (base, [[f, 'version', v] for f in some] + ([] if i < len(VERSIONS) else changes(data, rnd, 12)), 'v%d' % i)))
    out = Result()
    for r in tlib.pool(jobs, os.cpu_count()):
        if r.failure and not out.failure:
            out.files = r.files
        out.merge(r)
    if out.failure:
        out.failure = shrink(base, out.failure[0], out.failure[1], out.files)
    return collections.OrderedDict([('changed-data-sets', out)])


def replay(section, case):
    judge(setup(), case, 'x', 8)
