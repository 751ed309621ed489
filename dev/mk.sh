#!/bin/bash
# mk.sh KIND: leaves a refactored copy in /tmp/rk_KIND
rm -rf "/tmp/rk_$1"; cp -a /repo /tmp/rk_$1; /tmp/dbg refac /repo $1 /tmp/rk_$1; cd /tmp/rk_$1; goimports -w $(git diff --name-only); go build ./...
