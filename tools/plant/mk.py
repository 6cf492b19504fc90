#!/usr/bin/env python3
"""mk.py BATCH.py [ids] : BATCH.py calls bug(...) for every planted bug; each is made into seeded/<id> and tried."""
import sys, os, json, importlib.util, subprocess, io, contextlib
sys.path.insert(0, os.path.dirname(__file__))
import plant, shutil
V='/verif'; BUGS=[]
def bug(id, pkg, prop, needs, breaks, edits, demo, also=[]):
    BUGS.append((id,pkg,prop,needs,breaks,edits,demo,also))
def make(b):
    id,pkg,prop,needs,breaks,edits,demo,also=b
    plant.new(id); d=plant.wt(id); S=f'{V}/seeded/{id}'; os.makedirs(S,exist_ok=True)
    for f,old,new in edits:
        p=f'{d}/{f}'; s=open(p).read()
        assert s.count(old)==1, (id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    open(f'{S}/demo_test.txt','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks,**({'also':also} if also else {})),open(f'{S}/meta.json','w'),indent=1)
    e=dict(os.environ)
    r=subprocess.run([sys.executable,f'{V}/tools/plant/plant.py',id,pkg],capture_output=True,text=True,env=e)
    return id+'\n'+r.stdout+r.stderr
if __name__=='__main__':
    src=open(sys.argv[1]).read(); exec(compile(src,sys.argv[1],'exec'),{'bug':bug})
    want=sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor
    bs=[b for b in BUGS if not want or b[0] in want]
    with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
        for o in ex.map(make,bs): print('=====',o,flush=True)
