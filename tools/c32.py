"""C32: ranges, defaults and data loading of the tool, against set models."""
import collections, io, json, os, random, contextlib, shutil
from hypothesis import strategies as st
import tlib
from tlib import Bad, Result, guarded

MAX = 0x10FFFF
RULE = ('Random ranges, range lists, default lists and data files (JSON, keys in any order) through the real helpers, compared with a model '
        'over sets of code points. Non-trivial: ranges of more than one code point, lists and files of more than one entry.')
ASSUME = ['Data files are well formed: disjoint ranges of at least four hex digits, values known to the alias table.',
          'A range object is iterated by one loop at a time (it keeps its position in itself).']

cp = st.one_of(st.integers(0, 0x300), st.sampled_from([0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, MAX, MAX - 1, 0xD7FF, 0xD800, 0xE000]), st.integers(0, MAX))


def txt(a, b, single):
    s = '%04X' % a if single and a == b else '%04X..%04X' % (a, b)
    return s


@st.composite
def range_case(draw):
    a = draw(cp)
    b = min(MAX, a + draw(st.one_of(st.just(0), st.integers(0, 40), st.integers(0, 3000))))
    qs = draw(st.lists(st.one_of(cp, st.integers(max(0, a - 3), b + 3)), max_size=8))
    c = draw(cp)
    d = min(MAX, c + draw(st.integers(0, 40)))
    return {'a': a, 'b': b, 'single': draw(st.booleans()), 'q': qs, 'c': c, 'd': d}


def check_range(m, k):
    R = m.CodePointRange
    a, b = k['a'], k['b']
    objs = [('parse', guarded(R.parse, txt(a, b, k['single']))), ('constructor', guarded(R, a, b))]
    if a == b:
        objs.append(('constructor of one code point', guarded(R, a)))
    for how, r in objs:
        if (r.start, r.end) != (a, b):
            raise Bad('%s of %s: start and end are %r, %r' % (how, txt(a, b, 1), r.start, r.end))
        for _ in range(2):
            got = guarded(list, r)
            if got != list(range(a, b + 1)):
                raise Bad('%s of %s lists %d code points, %r..%r' % (how, txt(a, b, 1), len(got), got[:2], got[-2:]))
        seen = []
        for i, x in enumerate(r):     # a loop left early must not spoil the next
            seen.append(x)
            if i == 2:
                break
        if guarded(list, r) != list(range(a, b + 1)):
            raise Bad('%s lists other code points after an unfinished loop' % txt(a, b, 1))
        for q in k['q'] + [a, b, a - 1, b + 1]:
            if (q in r) != (a <= q <= b):
                raise Bad('%04X in %s is %r' % (q, txt(a, b, 1), q in r))
        if guarded(repr, r) != '%04X..%04X' % (a, b):
            raise Bad('%s prints as %r' % (txt(a, b, 1), repr(r)))
        back = guarded(R.parse, repr(r))
        if (back.start, back.end) != (a, b):
            raise Bad('%r parses back to %r' % (repr(r), repr(back)))
    if a != b:
        for f in (lambda: R(b, a), lambda: R.parse('%04X..%04X' % (b, a))):
            try:
                f()
            except ValueError:
                pass
            except Exception as e:
                raise Bad('reversed range %04X..%04X raises %s' % (b, a, type(e).__name__))
            else:
                raise Bad('reversed range %04X..%04X is accepted' % (b, a))
    c, d = k['c'], k['d']
    r, s = R(a, b), R(c, d)
    if b < c or d < a:
        lt = b < c
        if (r < s, r > s, s < r, s > r) != (lt, not lt, not lt, lt):
            raise Bad('order of the disjoint ranges %r and %r is wrong' % (r, s))


@st.composite
def missing_case(draw):
    base = draw(cp)
    near = st.one_of(cp, st.integers(base, min(MAX, base + 60)))
    pairs = draw(st.lists(st.tuples(near, st.one_of(st.integers(0, 30), st.integers(0, MAX)), st.integers(0, 5)), max_size=12))
    pairs = [[a, min(MAX, a + n), 'D%d' % v] for a, n, v in pairs]
    qs = draw(st.lists(near, max_size=10))
    return {'pairs': pairs, 'q': qs}


def check_missing(m, k):
    x = m.Missing()
    qs = list(k['q'])
    seen = []
    for a, b, v in k['pairs']:
        guarded(x.append, m.CodePointRange(a, b), v)
        seen.append((a, b, v))
        qs += [a, b, max(a - 1, 0), min(b + 1, MAX)]
        if len(seen) == len(k['pairs']) // 2:
            ask(x, seen, qs)
    ask(x, seen, qs)


def ask(x, seen, qs):
    for q in qs:
        want = None
        for a, b, v in seen:
            if a <= q <= b:
                want = v
        got = guarded(x.default_value_for, q)
        if got != want:
            raise Bad('default for %04X is %r, the lines %s give %r' % (q, got, [['%04X..%04X' % (a, b), v] for a, b, v in seen], want))


@st.composite
def disjoint(draw, vals, maxn=25):
    c, out = draw(st.sampled_from([0, 0, 0x40, 0xFFF0, 0xFFFF0])), []
    for gap, ln, v in draw(st.lists(st.tuples(st.integers(0, 40), st.one_of(st.just(0), st.integers(0, 70)), vals), max_size=maxn)):
        a = c + gap
        b = min(MAX, a + ln)
        if a > MAX:
            break
        out.append([a, b, v])
        c = b + 1
    p = draw(st.permutations(out)) if out else []
    return [list(x) for x in p]


ALIAS_PROPS = ['sc', 'GCB', 'dt', 'WB']


@st.composite
def file_case(draw, aliases):
    kind = draw(st.sampled_from(['plain', 'plain', 'grouped', 'missing', 'abbr', 'ccc', 'blk', 'age']))
    k = {'kind': kind, 'single': draw(st.booleans())}
    if kind == 'plain':
        k['data'] = draw(disjoint(st.sampled_from(['A', 'Bb', 'x y', 'None', '0', 'E_e'])))
    elif kind == 'grouped':
        names = draw(st.lists(st.sampled_from(['Emoji', 'Dash', 'Some_Prop', 'X']), unique=True, max_size=4))
        k['groups'] = [[n, [r[:2] for r in draw(disjoint(st.just(0), 12))]] for n in names]
    elif kind == 'missing':
        prop = draw(st.sampled_from(['bc']))
        vals = sorted(aliases['bc'].values())
        k['data'] = [[a, min(MAX, a + n), v] for a, n, v in draw(st.lists(st.tuples(cp, st.integers(0, 5000), st.sampled_from(vals)), max_size=10,
                                                                           unique_by=lambda t: (t[0], min(MAX, t[0] + t[1]))))]
        k['prop'] = prop
    elif kind == 'abbr':
        k['prop'] = draw(st.sampled_from(ALIAS_PROPS))
        k['data'] = draw(disjoint(st.sampled_from(sorted(aliases[k['prop']].values()))))
    elif kind == 'ccc':
        k['data'] = draw(disjoint(st.sampled_from(sorted(aliases['ccc']))))
    elif kind == 'blk':
        names = sorted(aliases['blk'].values())
        k['data'] = draw(disjoint(st.sampled_from(names)))
        k['style'] = draw(st.sampled_from(['_', ' ', '-', 'lower']))
    else:
        k['data'] = draw(disjoint(st.sampled_from(sorted(aliases['age']))))
        k['data'] = [x for x in k['data'] if '.' in x[2]]
    return k


def write(d, obj):
    p = os.path.join(d, 'case-%d.json' % os.getpid())
    with open(p, 'w') as f:
        json.dump(obj, f, ensure_ascii=False)
    return p


def pairs_of(d):
    return [(r.start, r.end, v) for r, v in d]


def same(what, got, want):
    if got != want:
        for g, w in zip(got, want):
            if g != w:
                raise Bad('%s: got %s, the file says %s' % (what, g, w))
        raise Bad('%s: %d entries, the file has %d' % (what, len(got), len(want)))


def has(m, *names):
    return all(hasattr(m, n) for n in names)


def check_file(m, aliases, base, k):
    kind, sg = k['kind'], k['single']
    if kind == 'grouped':
        if not has(m, 'make_grouped_data'):
            return
        p = write(base, {n: [txt(a, b, sg) for a, b in rs] for n, rs in k['groups']})
        got = guarded(m.make_grouped_data, p)
        if list(got) != [n for n, _ in k['groups']]:
            raise Bad('grouped data has the properties %s, the file %s' % (list(got), [n for n, _ in k['groups']]))
        for n, rs in k['groups']:
            same('grouped data of ' + n, pairs_of(got[n]), sorted((a, b, 'true') for a, b in rs))
        return
    obj = {txt(a, b, sg): v for a, b, v in k['data']}
    want = sorted((a, b, v) for a, b, v in k['data'])
    if kind == 'missing':
        if not has(m, 'patch_data'):
            return
        p = write(base, obj)
        x = guarded(m.patch_data, p, k['prop'])
        inv = {}
        for ab, long in aliases['bc'].items():
            inv.setdefault(long, ab)
        ask(x, [(a, b, inv[v]) for a, b, v in k['data']], [q for a, b, _ in k['data'] for q in (a, b, max(0, a - 1), min(MAX, b + 1))])
        return
    if not has(m, 'make_data'):
        return
    if kind == 'blk':
        style = k['style']
        conv = {'_': lambda v: v, ' ': lambda v: v.replace('_', ' '), '-': lambda v: v.replace('_', '-'), 'lower': lambda v: v.lower().replace('_', ' ')}[style]
        obj = {txt(a, b, sg): conv(v) for a, b, v in k['data']}
        want = sorted((a, b, conv(v)) for a, b, v in k['data'])
    data = guarded(m.make_data, write(base, obj))
    same('loaded data', pairs_of(data), want)
    if kind == 'abbr' and has(m, 'data_value_as_abbr'):
        inv = {}
        for ab, long in aliases[k['prop']].items():
            inv.setdefault(long, ab)
        same('abbreviated data', pairs_of(guarded(m.data_value_as_abbr, data, k['prop'])), [(a, b, inv[v]) for a, b, v in want])
    elif kind == 'ccc' and has(m, 'data_value_as_abbr_ccc'):
        same('abbreviated classes', pairs_of(guarded(m.data_value_as_abbr_ccc, data)), [(a, b, aliases['ccc'][v]) for a, b, v in want])
    elif kind == 'age' and has(m, 'to_age_data'):
        same('age data', pairs_of(guarded(m.to_age_data, data)), [(a, b, 'V%s_%s' % tuple(v.split('.'))) for a, b, v in want])
    elif kind == 'blk' and has(m, 'data_value_as_abbr_blk'):
        by = {}
        for ab, long in aliases['blk'].items():
            by.setdefault(long.replace('_', '').lower(), ab)
        wn = [(a, b, ''.join(w.title() for w in by[v.replace('_', '').replace(' ', '').replace('-', '').lower()].split('_'))) for a, b, v in want]
        same('abbreviated blocks', pairs_of(guarded(m.data_value_as_abbr_blk, data)), wn)


_tools = {}


def tool(base):
    if base not in _tools:
        _tools[base] = tlib.load_tool('ucd-tool', os.path.join(base, 'repo'))
        with open(os.path.join(tlib.tooldir(os.path.join(base, 'repo')), 'data', tlib.version_dir(), 'PropertyValueAliases.json')) as f:
            _tools[base].v_aliases = json.load(f)
    os.chdir(tlib.tooldir(os.path.join(base, 'repo')))
    return _tools[base]


def w_range(n, seed, base):
    m = tool(base)
    return tlib.hyp(Result(), range_case(), lambda k: check_range(m, k), lambda k: k['a'] != k['b'], n, seed)


def w_missing(n, seed, base):
    m = tool(base)
    return tlib.hyp(Result(), missing_case(), lambda k: check_missing(m, k), lambda k: len(k['pairs']) > 1, n, seed)


def w_file(n, seed, base):
    m = tool(base)
    d = os.path.join(base, 'f%d' % seed)
    os.makedirs(d, exist_ok=True)
    return tlib.hyp(Result(), file_case(m.v_aliases), lambda k: check_file(m, m.v_aliases, d, k),
                    lambda k: len(k.get('data', k.get('groups'))) > 1, n, seed)


def w_aliases(base):
    """every alias and version of the vendored table, one by one"""
    m, r = tool(base), Result()
    A = m.v_aliases
    try:
        for prop, al in A.items():
            for ab, long in al.items():
                r.count([prop, ab], True)
                if has(m, 'find_key_by_value'):
                    first = next(k for k, v in al.items() if v == long)
                    if guarded(m.find_key_by_value, al, long) != first:
                        raise Bad('%s: short alias of %r' % (prop, long))
                    if guarded(m.find_key_by_value, al, long + '~') is not None:
                        raise Bad('%s: %r~ is no alias' % (prop, long))
                if has(m, 'find_key_by_value_ci'):
                    def fold(x):
                        return x.replace('-', ' ').replace('_', ' ').upper()
                    first = next(k for k, v in al.items() if fold(v) == fold(long))
                    for v in (long, long.lower(), long.upper(), long.replace('_', ' '), long.replace('_', '-')):
                        if guarded(m.find_key_by_value_ci, al, v) != first:
                            raise Bad('%s: short alias of %r, ignoring case and delimiters' % (prop, v))
        return r
    except Bad as e:
        r.failure = (None, str(e))
        return r


word = st.text(alphabet='ABXYabxyz019', min_size=1, max_size=4)


@st.composite
def table_case(draw):
    """An alias table of its own: names of words joined by any delimiters, and spellings to look up."""
    names = draw(st.lists(st.tuples(st.lists(word, min_size=1, max_size=4), st.lists(st.sampled_from('_- '), min_size=3, max_size=3)), min_size=1, max_size=8))
    table = []
    for i, (ws, ds) in enumerate(names):
        long = ws[0] + ''.join(d + w for d, w in zip(ds, ws[1:]))
        if any(fold(long) == fold(b) for _, b in table):
            continue        # which of two equal names is meant is left open
        table.append(['K%d' % i if draw(st.booleans()) else ws[0] + str(i), long])
    asks = draw(st.lists(st.tuples(st.integers(0, len(table) - 1), st.sampled_from('_- ='), st.sampled_from(['lower', 'upper', 'same', 'swap']), st.booleans()), min_size=1, max_size=8))
    return {'table': table, 'asks': [list(x) for x in asks]}


def fold(x):
    return x.replace('-', ' ').replace('_', ' ').upper()


def check_table(m, k):
    table = dict(k['table'])
    for i, d, case, odd in k['asks']:
        v = k['table'][i][1]
        if d != '=':
            v = v.replace('_', d).replace('-', d).replace(' ', d)
        v = {'lower': v.lower(), 'upper': v.upper(), 'same': v, 'swap': v.swapcase()}[case]
        if odd:
            v += 'q'
        if has(m, 'find_key_by_value'):
            want = next((a for a, b in table.items() if b == v), None)
            got = guarded(m.find_key_by_value, table, v)
            if got != want:
                raise Bad('the exact alias of %r is %r, the table says %r' % (v, got, want))
        if has(m, 'find_key_by_value_ci'):
            want = next((a for a, b in table.items() if fold(b) == fold(v)), None)
            got = guarded(m.find_key_by_value_ci, table, v)
            if got != want:
                raise Bad('the alias of %r, ignoring case and delimiters, is %r, the table says %r' % (v, got, want))


def w_table(n, seed, base):
    m = tool(base)
    return tlib.hyp(Result(), table_case(), lambda k: check_table(m, k), lambda k: len(k['table']) > 1, n, seed)


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'), src=False)
    return base


def run():
    base = setup()
    q = tlib.QUICK
    jobs, tag = [], []
    for name, js in [('range', tlib.split(w_range, 6000 if q else 400000, 8 if q else 32, base)),
                     ('defaults', tlib.split(w_missing, 6000 if q else 400000, 8 if q else 32, base)),
                     ('data-files', tlib.split(w_file, 8000 if q else 400000, 8 if q else 32, base)),
                     ('alias-tables', tlib.split(w_table, 8000 if q else 400000, 8 if q else 32, base)),
                     ('aliases', [(w_aliases, (base,))])]:
        jobs += js
        tag += [name] * len(js)
    out = collections.OrderedDict()
    for name, r in zip(tag, tlib.pool(jobs, os.cpu_count())):
        out.setdefault(name, Result()).merge(r)
    return out


def replay(section, case):
    base = setup()
    m = tool(base)
    if section == 'range':
        check_range(m, case)
    elif section == 'defaults':
        check_missing(m, case)
    elif section == 'alias-tables':
        check_table(m, case)
    elif section == 'aliases':
        r = w_aliases(base)
        if r.failure:
            raise Bad(r.failure[1])
    else:
        check_file(m, m.v_aliases, base, case)
