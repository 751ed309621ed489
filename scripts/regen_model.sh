#!/bin/bash
# Rebuilds /verif/model/internal from /repo's sources (non-test files, without
# the logging calls).  Only used while the reference model is being (re)written
# after an audit; the checks never run it.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
cd /repo/internal
find . -name '*.go' ! -name '*_test.go' ! -path './logger/*' | while read -r f; do
  mkdir -p "$here/model/internal/$(dirname "$f")"
  sed -e '/internal\/logger"/d' -e '/go.uber.org\/zap"/d' -e '/^[[:space:]]*logger\./d' "$f" > "$here/model/internal/$f"
done
cat > "$here/model/go.mod" <<'M'
module github.com/m4tthewde/gov1

go 1.19
M
gofmt -l "$here/model/internal" || true
cd "$here/model" && go vet ./... 2>&1 | head -20 || true
