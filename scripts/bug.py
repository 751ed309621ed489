#!/usr/bin/env python3
"""Plants a bug: bug(id, prop, [(file,old,new)...], pkg, test_go, needs, breaks).
Confirms in a scratch copy that it builds, passes the tests, and that the demonstration
passes without and fails with the change; then stores it under /verif/seeded/<id>."""
import os, subprocess, shutil, json, tempfile, sys
ROOT='/verif/seeded'
DEMO='''#!/bin/bash
# Runs the demonstration test in %(pkg)s through an overlay; nothing outside a scratch directory is written.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
cp go.mod "$t/m.mod"; cp go.sum "$t/m.sum"
export HOME=${HOME:-/root} GOFLAGS="-mod=mod -modfile=$t/m.mod" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace":{"%%s/internal/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" -run TestDemo ./internal/%(pkg)s
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def bug(id,prop,subs,pkg,test,needs,breaks,check=True):
    d=tempfile.mkdtemp(prefix='bug')
    try:
        w=d+'/repo'; sh('cp -a /repo '+w,'/'); sh('git checkout -q -- . && git clean -fdq',w)
        dd=d+'/demo'; os.makedirs(dd)
        if 'package ' not in test.split('\n')[0]:
            test='package '+os.path.basename(pkg)+'\n'+test
        open(dd+'/demo_test.go','w').write(test)
        sh('gofmt -w demo_test.go',dd)
        open(dd+'/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(dd+'/demo.sh',0o755)
        r=sh('bash '+dd+'/demo.sh',w)
        if r.returncode!=0: print(id,'DEMO FAILS UNPATCHED',r.stdout[-1500:],r.stderr[-800:]); return False
        for f,o,n in subs:
            p=w+'/internal/'+f; s=open(p).read()
            if s.count(o)!=1: print(id,'PATTERN',f,s.count(o)); return False
            open(p,'w').write(s.replace(o,n))
        r=sh('gofmt -l internal',w)
        if r.stdout.strip(): print(id,'gofmt',r.stdout)
        env=dict(os.environ)
        mod='export GOPROXY=off GOTOOLCHAIN=local; cp go.mod %s/m.mod; cp go.sum %s/m.sum; export GOFLAGS="-mod=mod -modfile=%s/m.mod"; '%(d,d,d)
        r=sh(mod+'go build ./... && go test -short -vet=off ./...',w)
        if r.returncode!=0: print(id,'BUILD/TEST',r.stdout[-1500:],r.stderr[-1500:]); return False
        r=sh('bash '+dd+'/demo.sh',w)
        if r.returncode==0: print(id,'DEMO PASSES PATCHED'); return False
        if 'build failed' in r.stdout+r.stderr: print(id,'DEMO BUILD FAILS',r.stdout); return False
        diff=sh('git diff',w).stdout
        o=ROOT+'/'+id
        if os.path.isdir(o): shutil.rmtree(o)
        shutil.copytree(dd,o)
        open(o+'/patch.diff','w').write(diff)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(o+'/meta.json','w'),indent=1)
        caught='?'
        if check:
            r=sh('/verif/bin/gov1check check /verif %s %s quick'%(w,prop),'/')
            caught='caught' if r.returncode==1 and 'VIOLATION property=%s'%prop in r.stdout else 'MISSED rc=%d'%r.returncode
        print(id,'ok',caught)
        return True
    finally:
        shutil.rmtree(d)
