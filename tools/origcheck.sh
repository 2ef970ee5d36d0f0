#!/bin/bash
# origcheck.sh <seed id>: say whether the lines the patch removes are all from the original repository.
base=65af514
python3 - "$1" <<'P'
import re,subprocess,sys
f=None
for l in open(f'/verif/seeded/{sys.argv[1]}/patch.diff'):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m.group(1).strip(); bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n'); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None or l.startswith(('+','diff','index')): continue
    if l.startswith('-'):
        print(('orig ' if '65af514' in bl[n-1].split()[0] else 'OURS '),f,n,l.rstrip())
    n+=1
P
