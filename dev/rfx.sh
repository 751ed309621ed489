k=$1
d=/tmp/rfx_$k
rm -rf $d; mkdir -p $d; cp -a /repo $d/repo
cp -a /verif/model /verif/props.json /verif/known_findings.txt $d/
/tmp/dbg refac /repo $k $d/repo >/dev/null 2>&1
(cd $d/repo && goimports -w $(git diff --name-only) && go build ./... || echo BUILDFAIL) 2>&1 | head -3
for p in P01 P12 P13 P27 P28 P30; do /tmp/dbg check $d $d/repo $p quick > $d/out 2>&1 || { echo "$k $p"; grep -a -v "value graph" $d/out | head -5; }; done
rm -rf $d
