#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (DESIGN.in -> DESIGN.md)"""
import json, os, re, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); b=[]; files=[]
    for f in sorted(glob.glob('%s/harness/%s.cc'%(R,p['id']))+glob.glob('%s/harness/%s_*.cc'%(R,p['id']))):
        s=open(f).read(); files.append(os.path.basename(f)); b+=re.findall(r'//@ bounds: *(.*)',s)
        n=len(re.findall(r'^ENTRY\(',s,re.M))
    if not files: rows.append('* **%s %s** - not applicable, see MANIFEST.json.'%(p['id'],p['title'])); continue
    def text(f):
        s=open(R+'/harness/'+f).read(); return s+''.join(open(R+'/harness/'+x).read() for x in re.findall(r'^//@ entries: (\S+)',s,re.M))
    n=sum(len(re.findall(r'^ENTRY\(',text(f),re.M)) for f in files)
    ev='%s/evidence/%s.json'%(R,p['id'])
    rows.append('* **%s %s** (%s; %d entries). Oracle: the assertions of the harness, an independent restatement of: %s Bounds: %s.'%(p['id'],p['title'],', '.join(files),n,p['statement'],'; '.join(b)))
seeds=[]
notes=json.load(open(R+'/tools/seednotes.json')) if os.path.exists(R+'/tools/seednotes.json') else {}
for m in sorted(glob.glob(R+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); seeds.append('| %s | %s | %s | %s |'%(i,d['property'],d['needs'],notes.get(i,'caught by '+d['property'])))
s=open(R+'/DESIGN.in').read().replace('@TABLE@','\n'.join(rows)).replace('@SEEDS@','| change | property | needs | result |\n|---|---|---|---|\n'+'\n'.join(seeds))
open(R+'/DESIGN.md','w').write(s)
