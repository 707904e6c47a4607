"""C35: the import script rebuilds every vendored data file from its source."""
import collections, hashlib, json, os, random, shutil
from hypothesis import strategies as st
import tlib
from tlib import Bad, NoAnswer, Result

RULE = ('A stand-in converter prints generated content for each source file it is asked for; the import script runs in a scratch copy whose data '
        'folder holds random prior content (absent, empty, stale, longer files, no folder at all). Every data file must then hold what the converter '
        'printed for its own source. Non-trivial: at least two sources differ in content and some prior content differs from the result.')
ASSUME = ['The real converter is another repository; the stand-in answers "ucd-json [--missing] SOURCE" with stored content.',
          'The converter location holds no shell metacharacters.']

STUB = '''#!/bin/sh
# stand-in for ucd-json
d=$(dirname "$0")
if [ "$1" = "--missing" ]; then f="$d/out/missing/$2"; else f="$d/out/plain/$1"; fi
if [ -f "$f" ]; then cat "$f"; else printf '%s' "UNKNOWN SOURCE $*"; fi
'''


def vendored():
    """the data files of the current version: target -> (source, missing)"""
    d = os.path.join(tlib.REPO, 'tools/ucd-tool/data', tlib.version_dir())
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            t = os.path.relpath(os.path.join(base, f), d)
            if t.endswith('.missing.json'):
                out[t] = (t[:-len('.missing.json')] + '.txt', True)
            elif t.endswith('.json'):
                out[t] = (t[:-5] + '.txt', False)
    return out


def content(target, seed, style):
    """distinct for each target"""
    rnd = random.Random('%s %d' % (target, seed))
    head = '{ "%s": %d }' % (target, seed)
    if style == 'vendored':
        with open(os.path.join(tlib.REPO, 'tools/ucd-tool/data', tlib.version_dir(), target), 'rb') as f:
            return f.read()
    if style == 'empty':
        return b''
    if style == 'line':
        return head.encode() + b'\n'
    if style == 'bare':
        return head.encode()
    if style == 'quotes':
        return (head + '\n"$HOME" `x` \'%s\' > < | & ; \\ \n').encode()
    return (head + '\n' + '\n'.join('%x' % rnd.getrandbits(200) for _ in range(rnd.randrange(1, 3000)))).encode() + b'\n'


STYLES = ['line', 'line', 'bare', 'quotes', 'long', 'long', 'vendored', 'empty']


def run_case(base, case, name):
    T = vendored()
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(base, 'repo'), d)
    rnd = random.Random(case['seed'])
    dd = os.path.join(tlib.tooldir(d), 'data', tlib.version_dir())
    conv = os.path.join(base, name + '-conv')
    shutil.rmtree(conv, ignore_errors=True)
    os.makedirs(conv)
    p = os.path.join(conv, 'ucd-json')
    with open(p, 'w') as f:
        f.write(STUB)
    os.chmod(p, 0o755)
    want = {}
    for t, (s, miss) in T.items():
        c = content(t, case['seed'], case['style'].get(t, 'line'))
        want[t] = c
        q = os.path.join(conv, 'out', 'missing' if miss else 'plain', s)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(c)
    # prior content
    if case['folder'] == 'absent':
        shutil.rmtree(dd, ignore_errors=True)
    else:
        os.makedirs(dd, exist_ok=True)
        for t in T:
            q = os.path.join(dd, t)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            k = case['prior'].get(t, 'none')
            if k == 'stale':
                with open(q, 'w') as f:
                    f.write('{"old": "%s"}' % t)
            elif k == 'longer':
                with open(q, 'wb') as f:
                    f.write(want[t] + b'\nold' * 500)
        if case['folder'] == 'flat':
            for sub in ('emoji', 'extracted', 'auxiliary'):
                shutil.rmtree(os.path.join(dd, sub), ignore_errors=True)
    env = {}
    conf = case['conf']
    lines = ''.join('# %s\n' % x for x in case['comments'])
    if conf in ('file', 'both'):
        with open(os.path.join(tlib.tooldir(d), '.env'), 'w') as f:
            f.write(lines + ('OTHER=1\n' if case['other'] else '') + 'UCD_JSON_DIR=' + case.get('pad', '') + conv + case.get('pad', '') + ('\n' if case['nl'] else '') + ('# end\n' if case['nl'] and case['other'] else ''))
    elif conf == 'none' and case['comments']:
        with open(os.path.join(tlib.tooldir(d), '.env'), 'w') as f:
            f.write(lines)
    if conf in ('env', 'both'):
        env['UCD_JSON_DIR'] = conv
    before = tlib.tree(d)
    cb = tlib.tree(conv)
    r = tlib.run_tool('gen-json-data.py', d, env=env)
    after = tlib.tree(d)
    rel = os.path.relpath(dd, d)
    if tlib.tree(conv) != cb:
        raise Bad('the import changes files of the converter')
    if conf == 'none':
        if after != before:
            raise Bad('without a converter location the import changes %s' % [x for x in sorted(set(before) | set(after)) if before.get(x) != after.get(x)][:3])
        if r.returncode == 0:
            raise Bad('without a converter location the import reports success')
    else:
        if r.returncode:
            raise Bad('the import fails: ' + r.stderr.decode('utf8', 'replace')[-400:])
        for x in sorted(set(before) | set(after)):
            if before.get(x) != after.get(x) and os.path.relpath(x, rel) not in T:
                raise Bad('the import changes %s' % x)
        for t, c in want.items():
            q = os.path.join(dd, t)
            if not os.path.exists(q):
                raise Bad('the import does not write %s' % t)
            with open(q, 'rb') as f:
                got = f.read()
            if got != c:
                src = [u for u, v in want.items() if v == got and v]
                raise Bad('%s does not hold what the converter prints for %s%s (%r...)' % (t, '--missing ' * T[t][1] + T[t][0], ', but that of %s' % src[0] if src else '', got[:60]))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(conv, ignore_errors=True)


@st.composite
def cases(draw):
    T = sorted(vendored())
    return {'seed': draw(st.integers(0, 10 ** 6)), 'conf': draw(st.sampled_from(['env', 'env', 'file', 'file', 'both', 'none'])),
            'comments': draw(st.lists(st.sampled_from(['comment', 'UCD_JSON_DIR=/nowhere', '', 'a=b=c']), max_size=3)),
            'other': draw(st.booleans()), 'pad': draw(st.sampled_from(['', '', ' ', '\t', '  '])), 'nl': draw(st.booleans()),
            'folder': draw(st.sampled_from(['full', 'full', 'flat', 'absent'])),
            'style': {t: draw(st.sampled_from(STYLES)) for t in T},
            'prior': {t: draw(st.sampled_from(['none', 'stale', 'longer'])) for t in T}}


def w(n, seed, base):
    return tlib.hyp(Result(), cases(), lambda c: run_case(base, c, 'x%d' % seed),
                    lambda c: c['conf'] != 'none' and len(set(c['style'].values())) > 1, n, seed)


def w_pipeline(base):
    """the stand-in prints the vendored data, from nothing"""
    r = Result()
    c = {'seed': 0, 'conf': 'env', 'comments': [], 'other': False, 'nl': True, 'folder': 'absent',
         'style': {t: 'vendored' for t in vendored()}, 'prior': {}}
    r.count(c, True)
    try:
        run_case(base, c, 'pipe')
    except Bad as e:
        r.failure = (c, str(e))
    return r


def setup():
    base = tlib.scratch()
    tlib.copy_repo(os.path.join(base, 'repo'), data=False, src=False)
    return base


def run():
    base = setup()
    if len(vendored()) < 5:
        raise NoAnswer('no vendored data')
    q = tlib.QUICK
    jobs = tlib.split(w, 640 if q else 30000, 8 if q else 32, base) + [(w_pipeline, (base,))]
    res = tlib.pool(jobs, os.cpu_count())
    a = Result()
    for r in res[:-1]:
        a.merge(r)
    return collections.OrderedDict([('stand-in-converter', a), ('vendored-content', res[-1])])


def replay(section, case):
    run_case(setup(), case, 'r')
