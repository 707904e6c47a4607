#!/usr/bin/env python3
"""Development-time mutation trial.  mutate.py OUT.json rust|py [worker-count] [stride offset]

Makes small syntactic changes of the logic in /repo one at a time, in private
copies mounted over /repo and /verif in a mount namespace of their own, keeps
those that pass the stable tests, and runs the quick checks until one reports a
violation.  Survivors are listed for triage by hand.  No check uses this."""
import json, os, re, shutil, subprocess, sys, random
RUST = ['src/unicode.rs', 'src/unicode/normalization.rs', 'src/unicode/seg.rs', 'src/unicode/hangul.rs',
        'src/collections.rs', 'src/unicode/ucd/dm.rs', 'src/unicode/ucd/na.rs', 'src/unicode/ucd/jsn.rs',
        'src/unicode/ucd/ce.rs', 'src/unicode/ucd/derived_props.rs', 'src/unicode/ucd/normalization_props.rs',
        'src/unicode/props.rs', 'src/unicode/ucd/hst.rs']
T = 'tools/ucd-tool/'
PY = [T + x for x in ['ucd-tool.py', 'gen-json-data.py', 'gen-blk-enum.py', 'gen-sc-enum.py', 'gen-normalization-test.py',
      'gen-blk-name.py', 'gen-sc-name.py', 'gen-grapheme-break-test.py', 'ucd/collections/missing.py',
      'ucd/collections/code_point_range.py', 'ucd/collections/two_stage_table.py']]
CMP = {'==': ['!='], '!=': ['=='], '<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<='], '>=': ['>'], '&&': ['||'], '||': ['&&'],
       '+': ['-'], '-': ['+'], '%': ['/'], '/': ['%'], '*': ['+'], '+=': ['-='], '-=': ['+='],
       'and': ['or'], 'or': ['and'], 'true': ['false'], 'false': ['true'], 'True': ['False'], 'False': ['True']}


def mutants(kind):
    out = []
    for f in (RUST if kind == 'rust' else PY):
        text = open('/repo/' + f).read()
        off = 0
        for ln, line in enumerate(text.split('\n'), 1):
            code = line
            start = off
            off += len(line) + 1
            s = line.strip()
            if not s or s.startswith(('//', '#', 'use ', 'pub use', 'import ', 'from ', 'const ', 'static ', '"""', "'''")):
                continue
            if f.endswith('hst.rs') and not ('fn ' in line or 'if ' in line or 'at(' in line or '%' in line):
                continue
            c = re.sub(r'\s+//.*$', '', code)
            for m in re.finditer(r'(?<![<>=!&|+\-*/%.])(==|!=|<=|>=|&&|\|\||\+=|-=|(?<= )[<>+\-*/%](?= ))(?![=])|\b(and|or|true|false|True|False)\b', c):
                for r in CMP[m.group(0)]:
                    out.append((f, ln, start + m.start(), start + m.end(), r))
            for m in re.finditer(r'(?<![\w.{\\x])(0x[0-9A-Fa-f_]+|\d+)(?:_?u\d+)?(?![\w.}])', c):
                t = m.group(1)
                v = int(t.replace('_', ''), 16 if t.startswith('0x') else 10)
                for d in (1, -1):
                    if v + d >= 0:
                        out.append((f, ln, start + m.start(1), start + m.end(1), (hex(v + d) if t.startswith('0x') else str(v + d))))
            if kind == 'rust' and re.match(r'\s*(\w[\w.]*\s*[+\-]?=[^=]|\w[\w.]*\.(push|push_str|clear|next|swap|remove|insert|reverse|extend)\b|break;|continue;|return\b.*;)', c) and c.rstrip().endswith(';') and not s.startswith('let '):
                out.append((f, ln, start + len(c) - len(c.lstrip()), start + len(c), ''))
            if kind == 'rust':
                m = re.match(r'(\s*(?:\} else )?if )(?!let )(.*)( \{)$', c)
                if m:
                    out.append((f, ln, start + m.start(2), start + m.end(2), '!(' + m.group(2) + ')'))
                    out.append((f, ln, start + m.start(2), start + m.end(2), 'false && ' + m.group(2)))
                for m in re.finditer(r'\bGcb::\w+', c):
                    out.append((f, ln, start + m.start(), start + m.end(), 'Gcb::XX'))
            else:
                m = re.match(r'(\s*(?:el)?if )(.*)(:)$', c)
                if m:
                    out.append((f, ln, start + m.start(2), start + m.end(2), 'not (' + m.group(2) + ')'))
                if re.match(r'\s*(\w[\w.\[\]]*\s*[+\-]?=[^=]|\w[\w.]*\.(append|write|extend|add|sort|pop|remove|update)\(|break|continue)', c) and c.count('(') == c.count(')') and c.count('[') == c.count(']') and c.count('{') == c.count('}') and not s.endswith(('(', '[', '{', '\\', ',')):
                    out.append((f, ln, start + len(c) - len(c.lstrip()), start + len(c), 'pass'))
                for m in re.finditer(r"'([A-Za-z_.]{1,40})'", c):
                    out.append((f, ln, start + m.start(1), start + m.end(1), m.group(1) + 'Q'))
    return out


ORDER = {'src/unicode.rs': ['C02', 'C25', 'C11', 'C12', 'C13', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C26', 'C27', 'C05'],
         'src/unicode/normalization.rs': ['C05', 'C04', 'C07', 'C10', 'C09', 'C06', 'C08', 'C28', 'C23'],
         'src/unicode/seg.rs': ['C02', 'C03', 'C01'],
         'src/unicode/hangul.rs': ['C09', 'C19', 'C05', 'C04', 'C15', 'C21'],
         'src/collections.rs': ['C29', 'C11'],
         'src/unicode/ucd/dm.rs': ['C13', 'C09', 'C04', 'C05'], 'src/unicode/ucd/na.rs': ['C19', 'C09'],
         'src/unicode/ucd/jsn.rs': ['C19', 'C09', 'C20', 'C25'], 'src/unicode/ucd/ce.rs': ['C20', 'C05', 'C10'],
         'src/unicode/ucd/derived_props.rs': ['C21', 'C20', 'C15', 'C25'],
         'src/unicode/ucd/normalization_props.rs': ['C20', 'C05'],
         'src/unicode/props.rs': ['C24', 'C27', 'C12', 'C26'], 'src/unicode/ucd/hst.rs': ['C15'],
         T + 'ucd-tool.py': ['C31', 'C34', 'C32', 'C33', 'C35'], T + 'gen-json-data.py': ['C35', 'C34'],
         T + 'ucd/collections/missing.py': ['C32', 'C34', 'C31', 'C35'], T + 'ucd/collections/code_point_range.py': ['C32', 'C30', 'C34', 'C31'],
         T + 'ucd/collections/two_stage_table.py': ['C30', 'C34', 'C31', 'C32']}


def worker(k, todo, outp):
    base = '%s-%d' % (outp.replace('.json', ''), k)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(['cp', '-a', '/repo', '/verif', base], check=True)
    res = []
    base_ok = set(json.load(open('/opt/vp/BASELINE.json'))['passing'] if 'passing' in json.load(open('/opt/vp/BASELINE.json')) else [])
    for n, (f, ln, a, b, r) in todo:
        p = base + '/repo/' + f
        orig = open('/repo/' + f).read()
        mut = orig[:a] + r + orig[b:]
        open(p, 'w').write(mut)
        ent = {'n': n, 'file': f, 'line': ln, 'old': orig[a:b], 'new': r, 'text': orig.split('\n')[ln - 1].strip()}

        def run(cmd, t):
            return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && . /opt/vp/env.sh && %s' % (base, base, cmd)],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, stdin=subprocess.DEVNULL)
        try:
            if f.endswith('.rs'):
                x = run('timeout -s KILL 90 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1', 200)
                o = x.stdout.decode(errors='replace')
                if x.returncode == 137:
                    ent['r'] = 'TIMEOUT'
                elif 'could not compile' in o:
                    ent['r'] = 'nobuild'
                elif any('validate_properties' not in l for l in re.findall(r'^test .* \.\.\. FAILED', o, re.M)) or 'SIG' in o or o.count('test result:') < 8:
                    ent['r'] = 'tests'
            if 'r' not in ent:
                ent['r'] = 'SURVIVED'
                ent['rc'] = {}
                order = ORDER.get(f, ['C33'])
                for c in order:
                    x = run('cd /verif && timeout 880 ./check %s' % c, 900)
                    ent['rc'][c] = x.returncode
                    if x.returncode == 1:
                        ent['r'] = c
                        break
                    if x.returncode == 2:
                        ent.setdefault('err', []).append(x.stdout.decode(errors='replace')[-300:])
        except subprocess.TimeoutExpired:
            ent['r'] = 'TIMEOUT'
        open(p, 'w').write(orig)
        if f.endswith('.py'):
            pass
        res.append(ent)
        with open('%s.%d' % (outp, k), 'w') as o:
            json.dump(res, o, indent=1)
    shutil.rmtree(base, ignore_errors=True)


def main():
    outp, kind = sys.argv[1:3]
    nw = int(sys.argv[3])
    stride, offset = (int(x) for x in sys.argv[4:6]) if len(sys.argv) > 5 else (1, 0)
    ms = list(enumerate(mutants(kind)))
    random.Random(7).shuffle(ms)
    ms = ms[offset::stride]
    print(len(ms), 'mutants', flush=True)
    if nw == 0:
        for n, m in ms:
            print(n, m)
        return
    pids = []
    for k in range(nw):
        pid = os.fork()
        if pid == 0:
            try:
                worker(k, ms[k::nw], outp)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)


main()
