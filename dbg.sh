#!/bin/bash
# dev helper: run witness files, summarise anything not proved (one line each, at most 40)
for p in "$@"; do echo "== $p"; IFS=: read f r <<< "$p"; timeout 900 python3-vt /verif/engine/vgcheck.py /verif/props/$f.cpp $r > /tmp/dbg.$f.log 2>&1
python3 - /tmp/dbg.$f.log <<'P'
import sys,re
cur='';n=0
for l in open(sys.argv[1]):
    if l.startswith('     ') and not l.startswith('        '):
        n+=1
        if n<=40: print(cur[:40].strip(),'|',l.strip()[:330])
    elif l.startswith('        {') and n<=12: print('        ',l.strip()[:300])
    elif not l.startswith(' '):
        cur=l
        if not re.search(r"\} *None?$|\} *$",l.strip()) or 'rror' in l or l.startswith('outputs'): print(l.strip()[:700])
P
done
