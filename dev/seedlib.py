#!/usr/bin/env python3
"""Build and verify planted bugs.  seedlib.py make [ids] | verify [ids]

Definitions: dev/seeds.py.  Writes ../seeded/<id>/; `verify` builds and tests a
scratch copy with the patch, runs the demo on both trees, and runs the check of
the property against /repo with the patch applied (undone afterwards)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'dev'))
U = 'src/unicode/ucd/'

RUST_DEMO = '''#!/bin/bash
# exit 0: behaves as it should.  Run with cwd = the repository.
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
seshat-unicode = { path = "$repo" }
T
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 280 cargo run -q --offline
'''
PY_DEMO = '''#!/bin/bash
# exit 0: behaves as it should.  Run with cwd = the repository; works in a scratch copy.
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/repo/tests"
cp -a src tools Cargo.toml "$w/repo/" || exit 2
cp "$here/demo.py" "$w/demo.py"
cd "$w/repo/tools/ucd-tool" && PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 "$w/demo.py" "$w"
'''


def table_edit(text, cp, new, prefix=''):
    """Change the value of one code point in a two-stage table source."""
    m1 = re.search(r'const %sSTAGE_1: \[(u8|u16); (\d+)\] = \[(.*?)\];' % prefix, text, re.S)
    s1 = [int(x) for x in m1.group(3).replace('\n', ' ').split(',') if x.strip()]
    bs = 0x110000 // len(s1)
    b = s1[cp // bs]
    m2 = re.search(r'const %sSTAGE_2: .*?\n\];' % prefix, text, re.S)
    body = m2.group(0)
    blocks = re.split(r'(?=\n    &\[)', body)
    blk = blocks[b + 1]
    assert '// Block %d\n' % b in blk, blk[:80]
    toks = list(re.finditer(r'[\w:]+(?=,)', blk[blk.index('// Block'):]))
    off0 = blk.index('// Block')
    t = toks[cp % bs]
    old = t.group(0)
    newtok = old.split('::')[0] + '::' + new if '::' in old else new
    assert newtok != old, (cp, old)
    nb = blk[:off0 + t.start()] + newtok + blk[off0 + t.end():]
    if s1.count(b) == 1:
        blocks[b + 1] = nb
        return text.replace(body, ''.join(blocks))
    # shared block: the code point gets a block of its own
    n = len(blocks) - 1
    nb = nb.replace('// Block %d\n' % b, '// Block %d\n' % n)
    assert n < 256 or m1.group(1) == 'u16'
    tail = blocks[-1]
    assert tail.endswith('\n];')
    blocks[-1] = tail[:-3].rstrip() + nb.replace('\n];', '') + ('' if nb.rstrip().endswith('],') else '') + '\n];'
    s1[cp // bs] = n
    lines = '\n'.join('    ' + ' '.join('%d,' % x for x in s1[i:i + 16]) for i in range(0, len(s1), 16))
    text = text.replace(body, ''.join(blocks))
    return text.replace(m1.group(3), '\n' + lines + '\n')


def seeds():
    import seeds as S
    return S.SEEDS


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable='/bin/bash')


def scratch():
    d = tempfile.mkdtemp(prefix='seed-')
    sh('cp -a /repo %s/repo' % d)
    return d


def apply_edits(repo, edits):
    for e in edits:
        p = os.path.join(repo, e[0])
        t = open(p).read()
        if callable(e[1]):
            n = e[1](t)
        elif e[1] == 'table':
            n = table_edit(t, *e[2:])
        else:
            assert t.count(e[1]) == (e[3] if len(e) > 3 else 1), (e[0], e[1], t.count(e[1]))
            n = t.replace(e[1], e[2])
        assert n != t, e
        open(p, 'w').write(n)


def make(ids):
    d = scratch()
    repo = d + '/repo'
    for s in seeds():
        if ids and s['id'] not in ids:
            continue
        sh('git checkout -q -- .', repo)
        try:
            apply_edits(repo, s['edits'])
        except AssertionError as e:
            print('EDIT FAILS', s['id'], e)
            continue
        out = os.path.join(R, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        rust = 'rust' in s
        open(out + '/demo.sh', 'w').write(RUST_DEMO if rust else PY_DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        if rust:
            open(out + '/demo.rs', 'w').write('#![allow(unused)]\nuse seshat::unicode::props::*;\nuse seshat::unicode::*;\nfn main() {\n%s\n}\n' % s['rust'].strip('\n'))
        else:
            open(out + '/demo.py', 'w').write(s['py'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
    sh('rm -rf ' + d)


STABLE = None


def verify(ids, check=True, valid=True):
    """in a scratch copy: build, tests, demo; then the check against /repo"""
    d = scratch()
    repo = d + '/repo'
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    rows = []
    for s in seeds():
        if ids and s['id'] not in ids:
            continue
        sd = os.path.join(R, 'seeded', s['id'])
        sh('git checkout -q -- .', repo)
        r = {'id': s['id'], 'prop': s['prop']}
        x = sh('bash %s/demo.sh' % sd, repo)
        r['demo0'] = x.returncode
        if x.returncode:
            print(x.stdout.decode()[-1500:])
        if sh('git apply %s/patch.diff' % sd, repo).returncode:
            r['error'] = 'patch'
        # cargo goes by time stamps
        sh('find src -name "*.rs" -newer Cargo.toml >/dev/null; git diff --name-only | xargs touch', repo)
        x = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8', repo)
        t = x.stdout.decode('utf8', 'replace')
        ok = set(re.findall(r'^test (\S+)(?: - should panic)? ... ok', t, re.M))
        bad = set(re.findall(r'^test (.*?) ... FAILED', t, re.M))
        r['failed'] = sorted(bad)
        r['built'] = 'could not compile' not in t
        x = sh('bash %s/demo.sh' % sd, repo)
        r['demo1'] = x.returncode
        r['demo1_out'] = x.stdout.decode('utf8', 'replace')[-200:]
        if check:
            sh('git apply %s/patch.diff' % sd, '/repo')
            try:
                t0 = time.time()
                x = sh('VERIF_SEED=1 VERIF_TIER=quick %s/check %s' % (R, s['prop']), R)
                o = x.stdout.decode('utf8', 'replace')
                r['check'] = x.returncode
                r['t'] = round(time.time() - t0)
                r['viol'] = [l for l in o.split('\n') if l.startswith('VIOLATION property=%s ' % s['prop'])]
                r['msg'] = o[:300]
            finally:
                sh('git checkout -q -- .', '/repo')
        good = r['demo0'] == 0 and r['demo1'] != 0 and r['built'] and not [b for b in r['failed'] if 'validate_properties' not in b and 'properties' not in b]
        print('%-6s %s valid=%s caught=%s t=%s demo0=%s demo1=%s failed=%s' % (r['id'], r['prop'], good, (r.get('check') == 1 and bool(r.get('viol'))) if check else '-', r.get('t'), r['demo0'], r['demo1'], r['failed']))
        if check:
            print('      ' + r['msg'].split('\n')[0][:230])
        sys.stdout.flush()
    sh('rm -rf ' + d)


def only_check(ids):
    """the checks against private copies, mounted over /repo and /verif for the check alone"""
    d = scratch()
    sh('cp -a %s %s/verif' % (R, d))
    run = 'unshare -Urm bash -c "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check %%s"' % (d, d)
    for s in seeds():
        if ids and s['id'] not in ids and s['prop'] not in ids:
            continue
        sd = os.path.join(R, 'seeded', s['id'])
        sh('git checkout -q -- . && git apply %s/patch.diff' % sd, d + '/repo')
        t0 = time.time()
        x = sh(run % s['prop'], d)
        o = x.stdout.decode('utf8', 'replace')
        v = [l for l in o.split('\n') if l.startswith('VIOLATION property=%s ' % s['prop'])]
        print('%-6s caught=%s rc=%s t=%d' % (s['id'], x.returncode == 1 and bool(v), x.returncode, time.time() - t0), flush=True)
        rp = os.path.join(R, 'dev/results.json')
        db = json.load(open(rp)) if os.path.exists(rp) else {}
        m = re.search(r'^%s \[(.*?)\]' % s['prop'], o, re.M)
        db[s['id']] = {'caught': x.returncode == 1 and bool(v), 'rc': x.returncode, 't': round(time.time() - t0), 'section': m.group(1) if m else ''}
        json.dump(db, open(rp, 'w'), indent=1, sort_keys=True)
        for l in [l for l in o.split('\n') if '[' in l or 'ERROR' in l][:2]:
            print('      ' + l[:300])
    sh('rm -rf ' + d)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        make(a[1:])
    elif a[0] == 'check':
        only_check(a[1:])
    elif a[0] == 'valid':
        verify(a[1:], False)
    else:
        verify(a[1:])
