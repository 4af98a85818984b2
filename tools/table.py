#!/usr/bin/env python3
"""Rewrites section 8 of DESIGN.md from the metadata of the planted bugs."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    f=sorted(set(re.findall(r'^\+\+\+ b/(.*)$',open(f'{root}/seeded/{d}/patch.diff').read(),re.M)))
    short=lambda s: re.sub(r'\s+',' ',s).replace('|','/')
    rows.append(f"| {d} | {', '.join(os.path.basename(x) for x in f)} | {short(m['needs'])} | {m['property']} |")
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- table -->','<!-- end -->'
i,j=s.index(a)+len(a),s.index(b)
s=s[:i]+"\n\n| change | file | needs | caught by |\n|---|---|---|---|\n"+"\n".join(rows)+"\n\n"+s[j:]
open(p,'w').write(s); print(len(rows))
