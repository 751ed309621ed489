#!/bin/bash
# mut.sh SEED: one random change per function of a copy of /repo; prints the changed functions reported equal.
here=$(cd "$(dirname "$0")/.." && pwd)
s=$1; out=/tmp/mu_$s
rm -rf "/tmp/mu_$s"; cp -a "${REPO:-/repo}" "$out"
dbg=${DBG:-/tmp/dbg}
$dbg mutate "${REPO:-/repo}" "$out" "$s" > "$out.muts" 2>&1
GOV1_SHORT=1 timeout 1500 $dbg cmp "${MODEL:-$here/model}" "$out" "" 7 2>/dev/null | cut -c1-200 > "$out.cmp"
python3 - "$out" <<'P'
import sys,re
o=sys.argv[1]
st={}
for l in open(o+'.cmp',errors='replace'):
    m=re.match(r'^(ok|DIFF|ident)( undec)?\s+(\S+) ',l)
    if m: st[m[3]]=m[1]+(m[2] or '')
n=c=0
for l in open(o+'.muts'):
    a=l.rstrip('\n').split('\t')
    if len(a)<2: print('NOTE',l.strip()[:200]); continue
    n+=1
    r=st.get(a[0],'missing')
    if r.startswith('DIFF'): c+=1
    else: print(r,a[0],a[1])
print('seed',o,'mutants',n,'caught',c)
P
rm -rf "/tmp/mu_$s"
