#!/usr/bin/env python3
"""orig.py: for every seeded change, how many of the lines it removes or surrounds are original lines of the repository."""
import subprocess, re, pathlib, tempfile
base = subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()[0]
for d in sorted(pathlib.Path('/verif/seeded').iterdir()):
    added=orig=mine=0
    f=None
    for l in open(d/'patch.diff'):
        if l.startswith('--- a/'): 
            f=l[6:].strip(); old=set(x.strip() for x in subprocess.check_output(['git','-C','/repo','show',f'{base}:{f}'],text=True).split('\n'))
        elif l.startswith('+++'): pass
        elif l.startswith('-'):
            if l[1:].strip():
                if l[1:].strip() in old: orig+=1
                else: mine+=1
        elif l.startswith('+'): added+=1
    print(d.name, 'added',added,'orig',orig,'mine',mine, '' if mine==0 else '<<<')
