"""Plants the import cycle (built with /opt/vp/build.sh, which leaves cyclic packages out)."""
import os,subprocess,shutil,json,tempfile
def sh(c,cwd): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True)
o='/verif/seeded/b-import-cycle'
d=tempfile.mkdtemp(); w=d+'/repo'; sh('cp -a /repo '+w,'/')
p=w+'/internal/uncompressedheader/uncompressed_header.go'; s=open(p).read()
a='	"github.com/m4tthewde/gov1/internal/state"\n'; assert s.count(a)==1
s=s.replace(a,a+'	"github.com/m4tthewde/gov1/internal/symbol"\n')
a='const SUPERRES_DENOM_BITS = 3\n'; assert s.count(a)==1
s=s.replace(a,'const SUPERRES_DENOM_BITS = symbol.EC_MIN_PROB - 1\n')
open(p,'w').write(s)
os.makedirs(o,exist_ok=True)
open(o+'/patch.diff','w').write(sh('git diff',w).stdout)
open(o+'/demo.sh','w').write('''#!/bin/bash
# The decoder's packages must compile together.
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
cp go.mod "$t/m.mod"; cp go.sum "$t/m.sum"
export HOME=${HOME:-/root} GOFLAGS="-mod=mod -modfile=$t/m.mod" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build ./internal/parser
''')
os.chmod(o+'/demo.sh',0o755)
json.dump(dict(property='P01',needs='a build of the decoder rather than of its leaf packages',what_it_breaks='uncompressedheader imports symbol, which imports it back, so nothing above them compiles'),open(o+'/meta.json','w'),indent=1)
for x in ('/repo',w): print(x,sh('bash %s/demo.sh'%o,x).returncode)
r=sh('/verif/bin/gov1check check /verif %s P01 quick'%w,'/'); print(r.returncode,r.stdout[-600:])
shutil.rmtree(d)
