#!/usr/bin/env python3
"""plant.py ID PKG : turns the edited scratch copy /tmp/pl/ID into /verif/seeded/ID and tries it.
   plant.py new ID : makes the scratch copy.   plant.py try ID...: re-tries kept ones.
The demonstration is /verif/seeded/ID/demo_test.txt (Go test in package PKG_test, func TestDemo*)."""
import sys, os, subprocess, json, shutil
V='/verif'; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def wt(i): return f'/tmp/pl/{i}'
def new(i):
    os.makedirs('/tmp/pl', exist_ok=True)
    rm(i)
    r=sh(f'git -C {R} worktree add --detach {wt(i)} HEAD'); assert r.returncode==0, r.stderr
def rm(i):
    sh(f'git -C {R} worktree remove --force {wt(i)}'); shutil.rmtree(wt(i), ignore_errors=True); sh(f'git -C {R} worktree prune')
    shutil.rmtree(f'/tmp/pl/b_{i}', ignore_errors=True); shutil.rmtree(f'/tmp/pl/{i}.m', ignore_errors=True)
DEMO='''#!/bin/bash
# Run in the repository's root after a build: exit 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off TMPDIR=$T
export GOFLAGS="-mod=mod -modfile=$T/m.mod"
cp go.mod "$T/m.mod" && cp "$here/deps.sum" "$T/m.sum" || exit 99
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.txt" >"$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 240s -run '^TestDemo' ./%(pkg)s
'''
def env():
    e=dict(os.environ); e.pop('GOFLAGS',None); return e
def stable(d):
    names=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    s=f'''. /opt/vp/env.sh; cd {d}; mkdir -p {d}.m; cp go.mod {d}.m/t.mod; cp /opt/vp/gofer.sum {d}.m/t.sum; export GOFLAGS="-mod=mod -modfile={d}.m/t.mod"
P=$(go list -e ./... | grep -v /image$); go build $P || exit 1; go test -json -vet=off -count=1 -timeout 10m $P'''
    r=subprocess.run(['bash','-c',s],capture_output=True,text=True,env=env())
    ok=set(); bad=set()
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Test') and j['Action'] in('pass','fail'):
            (ok if j['Action']=='pass' else bad).add(j['Package'][len('github.com/donnie4w/gofer/')-len('github.com/donnie4w/gofer/'):].replace('github.com/donnie4w/gofer/','')+'/'+j['Test'])
    n2={n for n in names}
    miss=[n for n in n2 if not any(n.endswith(o) for o in ok)]
    return miss, r.stderr[-800:]
def demo(i,d):
    r=sh(f'bash {V}/seeded/{i}/demo.sh', cwd=d, env=env(), timeout=320)
    return r.returncode, (r.stdout+r.stderr)
def check(i,d,prop):
    e=env(); e.update(VERIF_REPO=d, VERIF_BUILD=f'/tmp/pl/b_{i}', VERIF_SEED=os.environ.get('SEED','1'))
    os.makedirs(e['VERIF_BUILD'],exist_ok=True)
    r=sh(f'{V}/tools/build.sh {e["VERIF_BUILD"]} 2>&1', env=e)
    if r.returncode: return 'BUILD FAILED '+r.stdout[-500:]
    out=''
    for p in prop:
        r=sh(f'{e["VERIF_BUILD"]}/simbin check -prop {p} -tier quick -seed {e["VERIF_SEED"]} -evidence /tmp/pl/b_{i}/ev.json -replays /tmp/pl/b_{i}/rep -work /tmp/pl/b_{i}/work -known {V}/known-findings.txt 2>&1', env=e)
        v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        out+=f' {p}: rc={r.returncode} '+(r.stdout[:900] if v else 'MISSED')+'\n'
    return out
def original(i):
    import re
    bad=[]; base=sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.strip()
    f=None
    for l in open(f'{V}/seeded/{i}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif f and l[:1] in ' -' and not l.startswith('---'):
            if l[0]=='-':
                b=sh(f'git -C {R} blame -l -s -L {n},{n} -- {f}').stdout
                if not b.startswith('^'): bad.append((f,n))
            n+=1
    return bad
def attempt(i, full=True):
    d=wt(i); S=f'{V}/seeded/{i}'; m=json.load(open(f'{S}/meta.json'))
    if full:
        print('lines not original:',original(i))
        miss,err=stable(d); print('tests missing:',miss, err if miss else '')
        rc,o=demo(i,R); print('demo clean rc',rc, '' if rc==0 else o[-1500:])
        rc,o=demo(i,d); print('demo bug rc',rc, o[-500:] if rc else 'DEMO PASSES WITH BUG')
    print(check(i,d,[m['property']]+m.get('also',[])))
if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='new': new(a[1]); print(wt(a[1]))
    elif a[0]=='try':
        for i in a[1:]:
            if not os.path.isdir(wt(i)):
                new(i); r=sh(f'git -C {wt(i)} apply {V}/seeded/{i}/patch.diff'); assert r.returncode==0,(i,r.stderr)
            print('==',i); attempt(i, full=not os.environ.get('CHECKONLY')); 
            if not os.environ.get('KEEP'): rm(i)
    else:
        i,pkg=a[0],a[1]; S=f'{V}/seeded/{i}'
        r=sh(f'git -C {wt(i)} diff'); open(f'{S}/patch.diff','w').write(r.stdout)
        t=open(f'{S}/demo_test.txt').read()
        if t.startswith('#!'):
            open(f'{S}/demo.sh','w').write(t); os.remove(f'{S}/demo_test.txt')
        else: open(f'{S}/demo.sh','w').write(DEMO%dict(pkg=pkg))
        os.chmod(f'{S}/demo.sh',0o755)
        shutil.copy('/opt/vp/gofer.sum',f'{S}/deps.sum')
        attempt(i)
        if not os.environ.get('KEEP'): rm(i)
