#!/bin/bash
# run all checks in parallel, no dump
cd /verif
ls engine/props_*.py >/dev/null
python3 - "$@" <<'P'
import subprocess,sys,json,concurrent.futures as cf,time
ids=sys.argv[1:] or ["C%02d"%i for i in range(1,57)]
import os
sys.path.insert(0,'/verif/engine')
import glob,re
have=set()
for f in glob.glob('/verif/engine/props_*.py'):
    have|=set(re.findall(r'(?m)^def (C\d\d)\(',open(f).read()))
def go(i):
    p=subprocess.run(["python3","/verif/check.py",i,"--no-dump"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,WIT="300"))
    return i,p.returncode,p.stdout
with cf.ThreadPoolExecutor(8) as ex:
    for i,rc,o in ex.map(go,[i for i in ids if i in have]):
        if rc==0: print([l for l in o.splitlines() if l.startswith("OK")][0])
        else: print(i,"RC",rc); print("\n".join(l[:500] for l in o.splitlines()[:12]))
P
