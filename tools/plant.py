#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: make /verif/seeded/<id> from definitions, after confirming each in a scratch copy.
DEFS.py calls bug(id, property, needs, breaks, edits=[(file, old, new)...], demo=<go test body file text>, race=False)"""
import sys,os,subprocess,shutil,json,tempfile
B=[]
def bug(id,property,needs,breaks,edits,demo,race=False): B.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,race=race))
src=open(sys.argv[1]).read(); exec(compile(src,sys.argv[1],'exec'))
only=sys.argv[2:]
DEMO='''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/o.json"
go test -count=1 -vet=off -timeout 200s %s-overlay "$tmp/o.json" -run '^TestDemo$' .
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash',**k)
for b in B:
    if only and b['id'] not in only: continue
    d=tempfile.mkdtemp(prefix='plant'); r=d+'/repo'; out=d+'/s'
    try:
        sh(f'cp -a /repo {r}; mkdir {out}','/'); sh('git checkout -q -- .',r)
        for f,o,n in b['edits']:
            s=open(f'{r}/{f}').read()
            if s.count(o)<1: print(b['id'],'EDIT NOT FOUND',f,o[:60]); raise SystemExit(1)
            open(f'{r}/{f}','w').write(s.replace(o,n,1))
        sh('. /opt/vp/env.sh; gofmt -w *.go',r)
        p=sh('git diff',r).stdout
        open(out+'/patch.diff','w').write(p)
        open(out+'/demo_test.go','w').write(b['demo'].lstrip())
        open(out+'/demo.sh','w').write(DEMO%('-race ' if b['race'] else '')); os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1)
        t=sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./...',r)
        pat=sh(out+'/demo.sh',r)
        sh('git checkout -q -- .',r)
        cl=sh(out+'/demo.sh',r)
        ok=t.returncode==0 and pat.returncode!=0 and cl.returncode==0 and 'build failed' not in pat.stdout
        print(b['id'],b['property'],'OK' if ok else 'BAD',f'tests={t.returncode} patched={pat.returncode} clean={cl.returncode}',flush=True)
        if not ok: print(t.stdout[-600:],'\n--patched',pat.stdout[-600:],'\n--clean',cl.stdout[-600:])
        else:
            dst='/verif/seeded/'+b['id']; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
    finally: shutil.rmtree(d)
