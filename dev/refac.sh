#!/bin/bash
# Usage: refac.sh KIND [EVERY PHASE]: measures false alarms on a mechanically refactored copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
k=$1; out=/tmp/rf_$1_${3:-0}
rm -rf "/tmp/rf_$1_${3:-0}"; cp -a /repo "$out"
dbg=${DBG:-/tmp/dbg}
$dbg refac /repo "$k" "$out" $2 $3 > "$out.log" 2>&1
(cd "$out" && goimports -w $(git diff --name-only) ) >> "$out.log" 2>&1
(cd "$out" && go build ./... >> "$out.log" 2>&1 && go test ./... 2>&1 | grep -v "no test files" >> "$out.log") || echo "$k BUILD FAILS: $(grep -v '^#' "$out.log" | head -5)"
GOV1_SHORT=1 $dbg cmp "$here/model" "$out" "" 7 > "$out.cmp" 2>/dev/null
echo "$k: $(head -1 "$out.log") diff=$(grep -c '^DIFF' "$out.cmp") undec=$(grep -c '^[A-Za-z]* undec' "$out.cmp") ok=$(grep -c '^ok' "$out.cmp") ident=$(grep -c '^ident' "$out.cmp")"
grep -E '^DIFF|^[a-z]+ undec' "$out.cmp" | awk '{print "   ",$1,$2,$3}' | head -40
rm -rf "$out"
