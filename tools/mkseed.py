#!/usr/bin/env python3
"""mkseed.py NAME...: turns tools/seeds/NAME.py (property, needs, breaks, edits, pkg, demo) into seeded/NAME and
confirms it: builds, stable tests pass, demo passes without and fails with the change.  Works on a copy of /repo."""
import sys,os,subprocess,shutil,json,tempfile
V='/verif'
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
export HOME=${HOME:-/root} TMPDIR=$t
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
cp go.mod "$t/m.mod"; cp "$d/modsum.txt" "$t/m.sum"
export GOFLAGS="-mod=mod -modfile=$t/m.mod"
printf '{"Replace":{"%s/PKG/seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/ov.json"
go test -overlay "$t/ov.json" -count=1 -vet=off -timeout 120s -run '^TestSeedDemo$' ./PKG
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(n):
    g={}
    exec(open(f'{V}/tools/seeds/{n}.py').read(),g)
    w=tempfile.mkdtemp(prefix='seed')
    try:
        sh(f'cp -a /repo {w}/repo'); r=f'{w}/repo'
        d=f'{V}/seeded/{n}'; os.makedirs(d,exist_ok=True)
        pkg=g['pkg']
        open(f'{d}/demo.sh','w').write(DEMO.replace('PKG',pkg)); os.chmod(f'{d}/demo.sh',0o755)
        open(f'{d}/demo_test.go','w').write(g['demo'])
        shutil.copy(f'{V}/gomod.sum',f'{d}/modsum.txt')
        json.dump(dict(property=g['prop'],needs=g['needs'],what_it_breaks=g['breaks']),open(f'{d}/meta.json','w'),indent=1)
        a=sh(f'bash {d}/demo.sh',cwd=r)
        if a.returncode!=0: print(n,'demo FAILS on clean',a.stdout[-1500:],a.stderr[-800:]); return
        for f,old,new in g['edits']:
            s=open(f'{r}/{f}').read()
            if s.count(old)!=1: print(n,'edit matches',s.count(old),f,old[:60]); return
            open(f'{r}/{f}','w').write(s.replace(old,new))
        p=sh('git diff',cwd=r).stdout
        open(f'{d}/patch.diff','w').write(p)
        env="export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off; cp go.mod %s/m.mod; cp /verif/gomod.sum %s/m.sum; export GOFLAGS='-mod=mod -modfile=%s/m.mod';"%(w,w,w)
        b=sh(env+'gofmt -l apt cacher mirror cmd; go build ./... && go test -vet=off -count=1 ./... 2>&1',cwd=r)
        base=set(json.load(open('/opt/vp/BASELINE.json')).get('passing',[]) or [])
        if b.returncode!=0: print(n,'build/tests fail',b.stdout[-1500:],b.stderr[-500:]); 
        c=sh(f'bash {d}/demo.sh',cwd=r)
        print(n,g['prop'],'ok' if b.returncode==0 and c.returncode!=0 else 'NOT OK','| demo with change:',c.returncode,[l for l in c.stdout.split('\n') if 'demo_test' in l][:2] or c.stdout[-300:])
    finally:
        shutil.rmtree(w)
for n in sys.argv[1:]: make(n)
