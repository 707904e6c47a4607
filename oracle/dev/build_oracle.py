#!/usr/bin/env python3
"""Development-time only.  Builds ../ucd-15.1.0.txt (the oracle snapshot the
harness judges the crate against) from a UCD 15.1.0 JSON directory and, when an
ICU dump (see icu_dump.c) is given, cross-checks every property ICU knows.

  build_oracle.py UCD_JSON_DIR [icu.tsv]
The snapshot is committed; no check runs this script.
"""
import json, os, re, sys
N = 0x110000
D = sys.argv[1]
def load(p): return json.load(open(os.path.join(D, p)))
def rng(k):
    a, _, b = k.partition('..')
    return int(a, 16), int(b or a, 16)
pva = load('PropertyValueAliases.json')
def norm(s): return re.sub(r'[ _\-]', '', s).lower()
def to_abbr(prop, extra={}):
    m = {norm(full): ab for ab, full in pva[prop].items()}
    m.update({norm(ab): ab for ab in pva[prop]})
    m.update(extra)
    return lambda v: m[norm(v)]
P = {}     # enumerated property -> list of N abbreviations
def from_ranges(data, default, f):
    a = [default] * N
    for k, v in data.items():
        s, e = rng(k)
        v = f(v)
        for c in range(s, e + 1): a[c] = v
    return a
ud = load('UnicodeData.json')
P['gc'] = from_ranges(load('extracted/DerivedGeneralCategory.json'), 'Cn', lambda v: v)
ccc = from_ranges(load('extracted/DerivedCombiningClass.json'), '0', lambda v: v)
P['ccc'] = ccc
P['dt'] = from_ranges(load('extracted/DerivedDecompositionType.json'), 'None', to_abbr('dt'))
P['GCB'] = from_ranges(load('auxiliary/GraphemeBreakProperty.json'), 'XX', to_abbr('GCB'))
P['WB'] = from_ranges(load('auxiliary/WordBreakProperty.json'), 'XX', to_abbr('WB'))
P['hst'] = from_ranges(load('HangulSyllableType.json'), 'NA', to_abbr('hst'))
P['InSC'] = from_ranges(load('IndicSyllabicCategory.json'), 'Other', to_abbr('InSC'))
bc = ['L'] * N
f = to_abbr('bc')
for k, v in load('extracted/DerivedBidiClass.missing.json').items():
    s, e = rng(k)
    for c in range(s, e + 1): bc[c] = f(v)
for k, v in load('extracted/DerivedBidiClass.json').items():
    s, e = rng(k)
    for c in range(s, e + 1): bc[c] = f(v)
P['bc'] = bc
P['blk'] = from_ranges(load('Blocks.json'), 'NB', to_abbr('blk'))
P['sc'] = from_ranges(load('Scripts.json'), 'Zzzz', to_abbr('sc'))
P['age'] = from_ranges(load('DerivedAge.json'), 'NA', lambda v: v)
# UAX #44 (15.1): Indic_Conjunct_Break as derived there.
S = {'Beng', 'Deva', 'Gujr', 'Mlym', 'Orya', 'Telu'}
incb = ['None'] * N
for c in range(N):
    if P['sc'][c] in S and P['InSC'][c] == 'Virama': incb[c] = 'Linker'
    elif P['sc'][c] in S and P['InSC'][c] == 'Consonant': incb[c] = 'Consonant'
    elif P['GCB'][c] == 'ZWJ' or (P['GCB'][c] == 'EX' and ccc[c] != '0'
            and P['InSC'][c] not in ('Virama', 'Consonant')): incb[c] = 'Extend'
cnt = {v: incb.count(v) for v in ('Linker', 'Consonant', 'Extend')}
assert cnt == {'Linker': 6, 'Consonant': 240, 'Extend': 884}, cnt   # DerivedCoreProperties-15.1.0 totals
P['InCB'] = incb
# decomposition mappings
dm = {}
for k, v in ud.items():
    d = re.sub(r'<[^>]*>', '', v['dm']).split()
    if d: dm[int(k, 16)] = [int(x, 16) for x in d]
for c in dm: assert P['dt'][c] != 'None', hex(c)
for c in range(N):
    if P['dt'][c] != 'None': assert c in dm or 0xAC00 <= c <= 0xD7A3
# binary
B = {}
def bset(lst):
    r = bytearray(N)
    for k in lst:
        s, e = rng(k)
        for c in range(s, e + 1): r[c] = 1
    return r
for name, lst in load('PropList.json').items(): B[name] = bset(lst)
for name, lst in load('emoji/emoji-data.json').items(): B[name] = bset(lst)
B['Composition_Exclusion'] = bset(load('CompositionExclusions.json'))
B['Full_Composition_Exclusion'] = bset(load('DerivedNormalizationProps.json')['Full_Composition_Exclusion'])
def derive(fn): return bytearray(1 if fn(c) else 0 for c in range(N))
gc, wb = P['gc'], P['WB']
B['Math'] = derive(lambda c: gc[c] == 'Sm' or B['Other_Math'][c])
B['Uppercase'] = derive(lambda c: gc[c] == 'Lu' or B['Other_Uppercase'][c])
B['Lowercase'] = derive(lambda c: gc[c] == 'Ll' or B['Other_Lowercase'][c])
B['Alphabetic'] = derive(lambda c: B['Uppercase'][c] or B['Lowercase'][c] or gc[c] in ('Lt', 'Lm', 'Lo', 'Nl') or B['Other_Alphabetic'][c])
B['Cased'] = derive(lambda c: B['Uppercase'][c] or B['Lowercase'][c] or gc[c] == 'Lt')
B['Case_Ignorable'] = derive(lambda c: wb[c] in ('ML', 'MB', 'SQ') or gc[c] in ('Mn', 'Me', 'Cf', 'Lm', 'Sk'))
B['Default_Ignorable_Code_Point'] = derive(lambda c: (B['Other_Default_Ignorable_Code_Point'][c] or gc[c] == 'Cf' or B['Variation_Selector'][c])
    and not B['White_Space'][c] and not 0xFFF9 <= c <= 0xFFFB and not 0x13430 <= c <= 0x13440 and not B['Prepended_Concatenation_Mark'][c])
B['Grapheme_Extend'] = derive(lambda c: gc[c] in ('Me', 'Mn') or B['Other_Grapheme_Extend'][c])
pat = lambda c: B['Pattern_Syntax'][c] or B['Pattern_White_Space'][c]
B['ID_Start'] = derive(lambda c: (gc[c] in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl') or B['Other_ID_Start'][c]) and not pat(c))
B['ID_Continue'] = derive(lambda c: (B['ID_Start'][c] or gc[c] in ('Mn', 'Mc', 'Nd', 'Pc') or B['Other_ID_Continue'][c]) and not pat(c))
# XID: the NFKC-closure fixpoint (UAX #31 5.1), computed from the data, not from a list
def full(c, memo={}):
    r = memo.get(c)
    if r is None:
        if 0xAC00 <= c <= 0xD7A3: r = [c]      # Hangul is inert for identifiers
        elif c in dm: r = [y for x in dm[c] for y in full(x)]
        else: r = [c]
        memo[c] = r
    return r
# ID_Start chars whose NFKD is not Start Continue*, etc.  Characters decomposing
# to a space or other non-identifier characters are excluded.
xs = bytearray(B['ID_Start']); xc = bytearray(B['ID_Continue'])
for c in range(N):
    if c in dm:
        r = full(c)
        if xc[c] and not all(B['ID_Continue'][x] for x in r): xc[c] = 0; xs[c] = 0
        if xs[c] and not B['ID_Start'][r[0]]: xs[c] = 0
# Explicit additional modifications named by UAX #31 5.1.x
for c in (0x0E33, 0x0EB3, 0xFF9E, 0xFF9F): xs[c] = 0
B['XID_Start'] = xs; B['XID_Continue'] = xc
# names
na = {}
for k, v in load('extracted/DerivedName.json').items():
    s, e = rng(k)
    for c in range(s, e + 1):
        na[c] = v[:-1] + '%04X' % c if v.endswith('*') else v
# Hangul names: DerivedName lists them one by one or by range
print('hangul name sample', na.get(0xAC00), na.get(0xD7A3), file=sys.stderr)

if len(sys.argv) > 2:
    bad = 0
    with open(sys.argv[2]) as fh:
        head = fh.readline().rstrip('\n').split('\t')
        ix = {n: i for i, n in enumerate(head)}
        for line in fh:
            f = line.rstrip('\n').split('\t')
            c = int(f[0], 16)
            def chk(what, mine, icu):
                global bad
                if mine != icu:
                    bad += 1
                    if bad < 60: print('DIFF %04X %s mine=%r icu=%r' % (c, what, mine, icu), file=sys.stderr)
            for p in ('gc', 'dt', 'GCB', 'WB', 'hst', 'InSC', 'bc', 'blk', 'sc'):
                ab, _, long = f[ix[p]].partition('|')
                mine = P[p][c]
                if mine != ab and norm(pva[p][mine]) != norm(long): chk(p, mine, f[ix[p]])
            ab, _, long = f[ix['ccc']].partition('|')
            # ccc: the json maps value->? ; compare by alias
            m = [k for k in pva['ccc'] if k == ccc[c]]
            P.setdefault('cccpairs', set()).add((ccc[c], ab))
            a = P['age'][c]
            chk('age', '0.0' if a == 'NA' else a, f[ix['age']])
            chk('na', na.get(c, ''), f[ix['na']])
            if not 0xAC00 <= c <= 0xD7A3:
                mine = ' '.join('%04X' % x for x in dm.get(c, []))
                can = mine if P['dt'][c] == 'Can' else ''
                chk('dm_can', can, f[ix['dm_can']].strip())
                chk('dm_compat', mine, f[ix['dm_compat']].strip())
            for b in B:
                if b in ix: chk(b, str(B[b][c]), f[ix[b]])
    print('ccc pairs', len(P['cccpairs']), sorted(P['cccpairs'], key=lambda t: int(t[0])), file=sys.stderr)
    P.pop('cccpairs')
    print('binary not in ICU:', [b for b in B if b not in ix], file=sys.stderr)
    print('TOTAL DIFFS', bad, file=sys.stderr)

out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ucd-15.1.0.txt'), 'w')
def runs(a, default):
    s = 0
    while s < N:
        e = s
        while e + 1 < N and a[e + 1] == a[s]: e += 1
        if a[s] != default: yield s, e, a[s]
        s = e + 1
DEF = dict(gc='Cn', ccc='0', dt='None', GCB='XX', WB='XX', hst='NA', InSC='Other', InCB='None', bc='L', blk='NB', sc='Zzzz', age='NA')
for p in P:
    out.write('@enum %s %s\n' % (p, DEF[p]))
    for s, e, v in runs(P[p], DEF[p]): out.write('%X %X %s\n' % (s, e, v))
for b in sorted(B):
    out.write('@bin %s\n' % b)
    for s, e, v in runs(B[b], 0): out.write('%X %X\n' % (s, e))
out.write('@dm\n')
for c in sorted(dm): out.write('%X %s\n' % (c, ' '.join('%X' % x for x in dm[c])))
out.write('@na\n')
c = 0
rules = {}
items = sorted(na.items())
for c, v in items: 
    m = re.fullmatch(r'(.*-)%04X' % c, v)
    rules[c] = m.group(1) if m else None
i = 0
while i < len(items):
    c, v = items[i]
    if rules[c]:
        j = i
        while j + 1 < len(items) and items[j+1][0] == items[j][0] + 1 and rules[items[j+1][0]] == rules[c]: j += 1
        out.write('%X %X *%s\n' % (c, items[j][0], rules[c])); i = j + 1
    elif 0xAC00 <= c <= 0xD7A3: out.write('%X %X %s\n' % (c, c, v)); i += 1
    else: out.write('%X %X %s\n' % (c, c, v)); i += 1
# the JSON keeps only "number -> short alias" for ccc; long aliases as in
# PropertyValueAliases-15.1.0 (cross-checked with icu_names.c)
CCC_LONG = dict(NR='Not_Reordered', OV='Overlay', HANR='Han_Reading', NK='Nukta', KV='Kana_Voicing', VR='Virama',
    ATBL='Attached_Below_Left', ATB='Attached_Below', ATA='Attached_Above', ATAR='Attached_Above_Right',
    BL='Below_Left', B='Below', BR='Below_Right', L='Left', R='Right', AL='Above_Left', A='Above', AR='Above_Right',
    DB='Double_Below', DA='Double_Above', IS='Iota_Subscript')
out.write('@cccabbr\n')
for num, ab in pva['ccc'].items(): out.write('%s %s\n' % (num, ab))
out.write('@names ccc\n')
for num, ab in pva['ccc'].items(): out.write('%s %s\n' % (ab, CCC_LONG.get(ab, ab)))
for p in ('gc', 'dt', 'GCB', 'WB', 'hst', 'InSC', 'bc', 'blk', 'sc', 'age'):
    out.write('@names %s\n' % p)
    for ab, full_ in pva[p].items(): out.write('%s %s\n' % (ab, full_ if isinstance(full_, str) else ' '.join(full_)))
out.write('@names InCB\nConsonant Consonant\nExtend Extend\nLinker Linker\nNone None\n@names bool\nY Yes\nN No\n')
