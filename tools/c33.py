"""C33: the test-case, enum and name generators transcribe their data."""
import collections, json, os, random, re, shutil, subprocess
from hypothesis import strategies as st
import tlib
from tlib import Bad, NoAnswer, Result

RULE = ('Random test-data files (any non-surrogate code points, any lengths, any number of entries) and random alias tables go through the '
        'generator scripts, run as programs in a scratch copy; the text they write is parsed back, and a share of it is compiled and read by '
        'a program with the types the test drivers use. Non-trivial: files with at least two entries.')
ASSUME = ['Data files are well formed: scalar values in at least four hex digits, one space between them, keys distinct.',
          'The parser of the emitted array literals and rustc are trusted.']

# ---- reading Rust array literals ------------------------------------------


def literal(text):
    """The nested array/tuple/string literal after '=' as lists and strings."""
    i = text.index('=') + 1
    pos = [i]

    def ws():
        while True:
            while pos[0] < len(text) and text[pos[0]] in ' \t\r\n&':
                pos[0] += 1
            if text.startswith('//', pos[0]):
                pos[0] = text.index('\n', pos[0])
            else:
                return

    def expr():
        ws()
        c = text[pos[0]]
        if c in '[(':
            end = ']' if c == '[' else ')'
            pos[0] += 1
            out = []
            while True:
                ws()
                if text[pos[0]] == end:
                    pos[0] += 1
                    return out
                out.append(expr())
                ws()
                if text[pos[0]] == ',':
                    pos[0] += 1
                elif text[pos[0]] != end:
                    raise Bad('emitted text: %r where , or %s should stand' % (text[pos[0]:pos[0] + 20], end))
        if c == '"':
            pos[0] += 1
            s = []
            while text[pos[0]] != '"':
                if text.startswith('\\u{', pos[0]):
                    e = text.index('}', pos[0])
                    s.append(int(text[pos[0] + 3:e].replace('_', ''), 16))
                    pos[0] = e + 1
                elif text[pos[0]] == '\\':
                    s.append(ord({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(text[pos[0] + 1], text[pos[0] + 1])))
                    pos[0] += 2
                else:
                    s.append(ord(text[pos[0]]))
                    pos[0] += 1
            pos[0] += 1
            return s
        raise Bad('emitted text: unexpected %r' % text[pos[0]:pos[0] + 20])
    try:
        v = expr()
        ws()
        if text[pos[0]] != ';':
            raise Bad('emitted text: no ; after the array')
        return v
    except (IndexError, ValueError):
        raise Bad('emitted text: unbalanced array literal')


def cps(s):
    return [int(x, 16) for x in s.split(' ')]


# ---- test-case generators --------------------------------------------------

scalar = st.one_of(st.integers(0x20, 0x17F), st.sampled_from([0, 9, 10, 13, 0x22, 0x27, 0x5C, 0x7B, 0x7D, 0x7F, 0x0308, 0x200D, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F1E6, 0xFFFFF, 0x100000, 0x10FFFF]),
                   st.integers(0, 0xD7FF), st.integers(0xE000, 0x10FFFF)).map(lambda c: '%04X' % c)


def seq(maxn):
    return st.lists(scalar, min_size=1, max_size=maxn).map(' '.join)


norm_files = st.lists(st.tuples(seq(6), seq(5), seq(6), seq(5), seq(18)).map(list), max_size=30, unique_by=lambda t: t[0])
graph_files = st.lists(st.lists(seq(4), min_size=1, max_size=7), max_size=30, unique_by=lambda t: ' '.join(t))

GEN = {'normalization': ('gen-normalization-test.py', 'NormalizationTest.json', 'tests/normalization_test_cases.rs'),
       'grapheme': ('gen-grapheme-break-test.py', 'auxiliary/GraphemeBreakTest.json', 'tests/grapheme_break_test_cases.rs')}


def data_path(d, f):
    return os.path.join(tlib.tooldir(d), 'data', tlib.version_dir(), f)


def generate(d, kind, case):
    script, src, dst = GEN[kind]
    if kind == 'normalization':
        obj = {k: {'NFC': a, 'NFD': b, 'NFKC': c, 'NFKD': e} for k, a, b, c, e in case}
    else:
        obj = {' '.join(c): c for c in case}
    with open(data_path(d, src), 'w') as f:
        json.dump(obj, f, indent=2)
    p = os.path.join(d, dst)
    other = GEN['grapheme' if kind == 'normalization' else 'normalization'][2]
    with open(p, 'w') as f:
        f.write('// old\n' * (len(case) * 40))
    before = tlib.tree(d)
    r = tlib.run_tool(script, d)
    if r.returncode:
        raise Bad('%s fails: %s' % (script, r.stderr.decode('utf8', 'replace')[-500:]))
    after = tlib.tree(d)
    for x in sorted(set(before) | set(after)):
        if before.get(x) != after.get(x) and x != dst:
            raise Bad('%s changes %s' % (script, x))
    with open(p, encoding='utf8') as f:
        return f.read()


def expected(kind, case):
    if kind == 'normalization':
        return [[cps(x) for x in c] for c in case]
    return [[cps(' '.join(c)), [cps(x) for x in c]] for c in case]


def compare(got, want):
    if len(got) != len(want):
        raise Bad('%d cases from %d data entries' % (len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Bad('case %d is %s, the data entry says %s' % (i + 1, show(g), show(w)))


def show(v):
    if v and isinstance(v[0], int):
        return ' '.join('%04X' % c for c in v)
    return '[' + '; '.join(show(x) for x in v) + ']'


def check_cases(d, kind, case):
    t = generate(d, kind, case)
    compare(literal(t), expected(kind, case))
    return t


TYPES = {'normalization': '(&str, &str, &str, &str, &str)', 'grapheme': '(&str, &[&str])'}
READ = {'normalization': 'for c in TC.iter() { println!("{};{};{};{};{}", h(c.0), h(c.1), h(c.2), h(c.3), h(c.4)); }',
        'grapheme': 'for c in TC.iter() { println!("{};{}", h(c.0), c.1.iter().map(|x| h(x)).collect::<Vec<_>>().join(";")); }'}


def check_compiled(d, kind, case):
    t = check_cases(d, kind, case)
    w = os.path.join(d, 'compiled')
    os.makedirs(w, exist_ok=True)
    with open(os.path.join(w, 'cases.rs'), 'w') as f:
        f.write(t)
    with open(os.path.join(w, 'main.rs'), 'w') as f:
        f.write('mod cases;\nconst TC: &[%s] = cases::TEST_CASES;\nfn h(s: &str) -> String { s.chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ") }\n'
                'fn main() { %s }\n' % (TYPES[kind], READ[kind]))
    r = subprocess.run(['rustc', '--edition', '2018', '-o', 'main', 'main.rs'], cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Bad('the emitted test cases do not compile: ' + r.stdout.decode('utf8', 'replace')[:800])
    r = subprocess.run([os.path.join(w, 'main')], stdout=subprocess.PIPE)
    got = [[cps(x) for x in l.split(';')] for l in r.stdout.decode().split('\n') if l]
    want = expected(kind, case)
    if kind == 'grapheme':
        want = [[a] + b for a, b in want]
    compare(got, want)
    shutil.rmtree(w, ignore_errors=True)


def w_cases(n, seed, base, kind):
    d = fresh(base, '%s-%d' % (kind, seed))
    return tlib.hyp(Result(), norm_files if kind == 'normalization' else graph_files, lambda c: check_cases(d, kind, c), lambda c: len(c) > 1, n, seed)


def w_compiled(n, seed, base, kind):
    d = fresh(base, 'c%s-%d' % (kind, seed))
    return tlib.hyp(Result(), norm_files if kind == 'normalization' else graph_files, lambda c: check_compiled(d, kind, c), lambda c: len(c) > 1, n, seed)


def w_vendored(base, kind):
    """the vendored test data itself"""
    d = fresh(base, 'v' + kind)
    r = Result()
    with open(data_path(d, GEN[kind][1])) as f:
        obj = json.load(f)
    case = [[k, v['NFC'], v['NFD'], v['NFKC'], v['NFKD']] for k, v in obj.items()] if kind == 'normalization' else list(obj.values())
    r.count(['vendored', kind], True)
    try:
        if kind == 'grapheme' and [' '.join(c) for c in case] != list(obj):
            raise NoAnswer('vendored grapheme data: breaks do not join to the source')
        check_cases(d, kind, case)
    except Bad as e:
        r.failure = ([kind], str(e))
    return r


# ---- enum and name generators ----------------------------------------------

ENUM = {'blk': ('gen-blk-enum.py', 'gen-blk-name.py', 'Blk'), 'sc': ('gen-sc-enum.py', 'gen-sc-name.py', 'Sc')}
word = st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=7)


@st.composite
def alias_case(draw):
    kind = draw(st.sampled_from(['blk', 'sc']))
    names = draw(st.lists(st.lists(word, min_size=1, max_size=3), max_size=25, unique_by=lambda ws: ''.join(ws)))
    out = []
    for ws in names:
        st_ = draw(st.sampled_from(['title', 'upper', 'suffix']))
        ab = '_'.join(w.upper() if st_ == 'upper' else w.title() for w in ws)
        if st_ == 'suffix' and draw(st.booleans()):
            ab += '_' + draw(st.sampled_from('ABCZ'))
        out.append([ab, '_'.join(w.title() for w in ws) + draw(st.sampled_from(['', '_And', '_Symbols']))])
    seen, res = set(), []
    for ab, f in out:
        if ab.replace('_', '').lower() not in seen:
            seen.add(ab.replace('_', '').lower())
            res.append([ab, f])
    return {'kind': kind, 'aliases': res}


def pascal(ab):
    return ''.join(w[:1].upper() + w[1:].lower() for w in ab.split('_'))


def parse_enum(text, name):
    m = re.search(r'enum\s+%s\s*\{(.*?)\}' % name, re.sub(r'//[^\n]*', '', text), re.S)
    if not m:
        raise Bad('no enum %s in the emitted text' % name)
    return [x.strip() for x in m.group(1).split(',') if x.strip()]


ARM = re.compile(r'%s::(\w+)\s*=>\s*PropertyName\s*\{\s*(\w+)\s*:\s*"([^"]*)"\s*,\s*(\w+)\s*:\s*"([^"]*)"\s*,?\s*\}')


def parse_names(text, name):
    out = []
    for v, k1, s1, k2, s2 in re.findall(ARM.pattern % name, text):
        d = {k1: s1, k2: s2}
        if set(d) != {'full', 'abbr'}:
            raise Bad('fields %s in the emitted names' % sorted(d))
        out.append((v, d['abbr'], d['full']))
    return out


def run_script(d, s):
    before = tlib.tree(d)
    r = tlib.run_tool(s, d)
    if r.returncode:
        raise Bad('%s fails: %s' % (s, r.stderr.decode('utf8', 'replace')[-500:]))
    if tlib.tree(d) != before:
        raise Bad('%s changes files' % s)
    return r.stdout.decode('utf8')


def both(d, kind):
    e, n, name = ENUM[kind]
    et, nt = run_script(d, e), run_script(d, n)
    return et, nt, parse_enum(et, name), parse_names(nt, name)


def check_alias(d, case):
    kind = case['kind']
    p = data_path(d, 'PropertyValueAliases.json')
    with open(os.path.join(d, 'aliases.orig')) as f:
        obj = json.load(f)
    obj[kind] = dict(case['aliases'])
    with open(p, 'w') as f:
        json.dump(obj, f)
    et, nt, variants, names = both(d, kind)
    ab = [a for a, _ in case['aliases']]
    if [pascal(a) for a in ab] != variants:
        raise Bad('aliases %s become the variants %s' % (ab, variants))
    want = [(pascal(a), a, f) for a, f in case['aliases']]
    if names != want:
        raise Bad('names emitted %s, aliases %s' % ([x for x in names if x not in want][:3], [x for x in want if x not in names][:3]))


def w_alias(n, seed, base):
    d = fresh(base, 'a%d' % seed)
    shutil.copy(data_path(d, 'PropertyValueAliases.json'), os.path.join(d, 'aliases.orig'))
    return tlib.hyp(Result(), alias_case(), lambda c: check_alias(d, c), lambda c: len(c['aliases']) > 1, n, seed)


LIB_MAIN = '''#![allow(dead_code, unused)]
use seshat::unicode::props::{%(E)s, UnicodeProperty, PropertyName};
// every variant, no other: the match has no catch-all arm
fn all(x: %(E)s) -> u32 { match x { %(arms)s } }
mod gen {
    use seshat::unicode::props::{%(E)s, PropertyName};
    %(fn)s
}
mod decl { %(decl)s }
fn main() {
    let vs = [%(vs)s];
    for (a, b) in vs.iter() {
        println!("{};{};{};{}", a.abbr, b.abbr, a.full, b.full);
    }
    let mut n = 0; %(cnt)s
    println!("{}", n);
}
'''


def check_library(base, kind):
    d = fresh(base, 'l' + kind)
    et, nt, variants, names = both(d, kind)
    E = ENUM[kind][2]
    with open(data_path(d, 'PropertyValueAliases.json')) as f:
        al = json.load(f)[kind]
    if [(a, f) for _, a, f in names] != list(al.items()):
        raise Bad('%s: name pairs and aliases differ' % kind)
    if len(variants) != len(al) or len(set(variants)) != len(variants):
        raise Bad('%s: %d variants (%d distinct) for %d aliases' % (kind, len(variants), len(set(variants)), len(al)))
    if [v for v, _, _ in names] != variants:
        raise Bad('%s: enum and name generator disagree on the variants' % kind)
    w = os.path.join(d, 'lib')
    import_ = nt
    main = LIB_MAIN % {'E': E, 'f': kind, 'fn': import_, 'decl': et, 'vs': ', '.join('(%s::%s.property_value_name(), gen::%s_name(%s::%s))' % (E, v, kind, E, v) for v in variants),
                       'arms': ', '.join('%s::%s => %d' % (E, v, i) for i, v in enumerate(variants)),
                       'cnt': ' '.join('let _ = decl::%s::%s; n += 1;' % (E, v) for v in variants)}
    tlib.cargo_crate(w, 'vc33', 'seshat-unicode = { path = "%s" }' % os.path.join(d), main, opt=0)
    ok, text = tlib.cargo_build(w, os.path.join(w, 'target'), 4)
    if not ok:
        raise Bad('%s: the emitted enum and names do not fit the library: %s' % (kind, text))
    r = subprocess.run([os.path.join(w, 'target/debug/vc33')], stdout=subprocess.PIPE)
    shutil.rmtree(w, ignore_errors=True)
    lines = r.stdout.decode().split('\n')
    for l in lines[:-2]:
        a, b, c, e = l.split(';')
        if a != b or c != e:
            raise Bad('%s: the library names %s/%s what the generator names %s/%s' % (kind, a, c, b, e))
    if lines[-2] != str(len(variants)):
        raise Bad('%s: %s variants declared, %d used' % (kind, lines[-2], len(variants)))
    return len(variants)


def w_library(base, kind):
    r = Result()
    r.count(['library', kind], True)
    try:
        n = check_library(base, kind)
        for i in range(n):
            r.count([kind, i], True)
    except Bad as e:
        r.failure = ([kind], str(e))
    return r


# ---- driver ----------------------------------------------------------------

def fresh(base, name):
    d = os.path.join(base, name)
    if not os.path.exists(d):
        shutil.copytree(os.path.join(base, 'repo'), d)
    return d


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'))
    return base


def run():
    base = setup()
    q = tlib.QUICK
    jobs, tag = [], []
    for name, js in [('library-enums', [(w_library, (base, k)) for k in ENUM]),
                     ('vendored-test-data', [(w_vendored, (base, k)) for k in GEN]),
                     ('normalization-cases', tlib.split(w_cases, 320 if q else 16000, 4 if q else 32, base, 'normalization')),
                     ('grapheme-cases', tlib.split(w_cases, 320 if q else 16000, 4 if q else 32, base, 'grapheme')),
                     ('compiled-normalization', tlib.split(w_compiled, 24 if q else 800, 2 if q else 16, base, 'normalization')),
                     ('compiled-grapheme', tlib.split(w_compiled, 24 if q else 800, 2 if q else 16, base, 'grapheme')),
                     ('alias-tables', tlib.split(w_alias, 160 if q else 8000, 4 if q else 32, base))]:
        jobs += js
        tag += [name] * len(js)
    out = collections.OrderedDict()
    for name, r in zip(tag, tlib.pool(jobs, os.cpu_count())):
        out.setdefault(name, Result()).merge(r)
    return out


def replay(section, case):
    base = setup()
    if section == 'library-enums':
        check_library(base, case[0])
    elif section == 'vendored-test-data':
        r = w_vendored(base, case[0])
        if r.failure:
            raise Bad(r.failure[1])
    elif section == 'alias-tables':
        d = fresh(base, 'a')
        shutil.copy(data_path(d, 'PropertyValueAliases.json'), os.path.join(d, 'aliases.orig'))
        check_alias(d, case)
    else:
        kind = 'normalization' if 'normalization' in section else 'grapheme'
        (check_compiled if section.startswith('compiled') else check_cases)(fresh(base, 'x'), kind, case)
