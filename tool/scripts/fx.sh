#!/bin/bash
# fx.sh PROP "commit subject (without fix:)" "what failed"
cd /repo || exit 1
gofmt -l internal | head
bash /opt/vp/build.sh >/tmp/fx.build 2>&1 || { cat /tmp/fx.build; exit 1; }
bash /opt/vp/test.sh /tmp/fx.json >/tmp/fx.test 2>&1 || { tail -30 /tmp/fx.test; grep -h '"Action":"fail"' /opt/vp/test-log.json | head; exit 1; }
git diff --stat | tail -1
git add -A internal && git commit -q -m "fix: $2" || exit 1
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
echo ok $h
