#!/bin/bash
# matrix.sh: runs every check against every planted bug; writes design/caught.json.
d=$(mktemp -d /tmp/mxXXXX); trap 'rm -r "$d"' EXIT
cp -a /verif/. $d/v; rm -r $d/v/.git $d/v/seeded
one() { d=$1; id=$2
 w=$d/$id; cp -a /repo $w; git -C $w checkout -q -- . ; git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id APPLYFAIL"; return; }
 for k in $(seq -w 1 30) 32; do
  r=$($d/v/bin/gov1check check $d/v $w P$k quick 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=P$k" <<<"$r"; then echo "$id P$k"; elif [ $rc != 0 ]; then echo "$id P$k BADRC $rc"; fi
 done
 echo "$id done"
 rm -r $w
}
export -f one
ls ${1:-/verif/seeded} | xargs -P 7 -I{} bash -c "one $d {}" > $d/out
python3 - $d/out <<'P'
import sys,json,os
m={}
for l in open(sys.argv[1]):
    f=l.split()
    if len(f)>2 or f[1]=='APPLYFAIL': print('PROBLEM',l.strip())
    m.setdefault(f[0],[])
    if f[1].startswith('P') and len(f)==2: m[f[0]].append(f[1])
for k in m: m[k].sort()
json.dump(m,open('/verif/design/caught.json','w'),indent=1,sort_keys=True)
for k in sorted(m):
    p=json.load(open('/verif/seeded/%s/meta.json'%k))['property']
    if p not in m[k]: print('MISSED',k,p,m[k])
P
