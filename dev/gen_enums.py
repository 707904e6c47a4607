#!/usr/bin/env python3
"""Development-time only: writes harness/src/enums.rs, the harness's own table
of (enum variant, UCD short alias).  Committed; no check runs it."""
import re
src=open('/repo/src/unicode/props.rs').read()
names={}; cur=None
for l in open('/verif/oracle/ucd-15.1.0.txt'):
    l=l.rstrip('\n')
    if l.startswith('@'):
        cur=l[7:] if l.startswith('@names ') else None
        if cur: names[cur]=[]
    elif cur: names[cur].append(l.split()[0])
out='// Written by dev/gen_enums.py.  Enum variant <-> UCD 15.1 short alias.\nuse seshat::unicode::props::*;\n\n'
def pascal(v): return v.lower().title().replace('_','')
for rust,ucd in [('Gc','gc'),('Hst','hst'),('Gcb','GCB'),('Bc','bc'),('Ccc','ccc'),('Dt','dt'),('Blk','blk'),('Sc','sc'),('Age','age'),('Wb','WB'),('Insc','InSC'),('Incb','InCB'),('BinaryProperty','bool')]:
    body=re.search(r'pub enum %s \{(.*?)\n\}'%rust,src,re.S).group(1)
    vs=re.findall(r'^\s*(\w+)\s*(?:=\s*\d+)?,',body,re.M)
    m={}
    for a in names[ucd]:
        if rust=='Blk': k=pascal(a)
        elif rust=='Age': k='NA' if a=='NA' else 'V'+a.replace('.','_')
        else: k=a
        m[k]=a
    left=[v for v in vs if v not in m]; miss=[a for k,a in m.items() if k not in vs]
    print(rust,len(vs),'variants without alias:',left,'aliases without variant:',miss)
    out+='pub const %s: &[(%s, &str)] = &[\n'%(rust.upper(),rust)
    for v in vs:
        if v in m: out+='    (%s::%s, "%s"),\n'%(rust,v,m[v])
    out+='];\n#[allow(unreachable_patterns)]\npub fn %s(v: %s) -> &\'static str {\n    match v {\n'%(rust.lower(),rust)
    for v in vs:
        if v in m: out+='        %s::%s => "%s",\n'%(rust,v,m[v])
    out+='        _ => "?",\n    }\n}\n\n'
open('/verif/harness/src/enums.rs','w').write(out)
