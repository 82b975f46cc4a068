#!/usr/bin/env python3
"""replay.py <file>: repeats a reported violation against /repo's current tree."""
import sys,os,json,tempfile,shutil
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+'/lib')
import native
r=json.load(open(sys.argv[1]))
if r['kind']!='native': print(json.dumps(r,indent=1)); sys.exit(0)
w=tempfile.mkdtemp(prefix='verif-')
try:
    sim,so=native.build(r['property'],w,r['cfg']); rc,o,e=native.one(sim,so,r['replay_args'],600); print(o); print(e[-4000:])
finally: shutil.rmtree(w,ignore_errors=True)
sys.exit(1 if native.FAIL.search(o or '') else 0)
