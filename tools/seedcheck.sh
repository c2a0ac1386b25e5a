#!/bin/bash
# seedcheck.sh ID: a planted change counts: applies, builds, passes the stable tests, demo passes without and fails with it.
d=/verif/seeded/$1
t="$(mktemp -d /tmp/seed-XXXXXX)"; trap '/bin/rm -rf "$t"' EXIT
cp -a "${REPO:-/repo}" "$t/repo"; cp -a "$d" "$t/s"; /bin/rm -f "$t/s/patch.diff" "$t/s/meta.json"
cd "$t/repo" || exit 1
. /verif/tools/goenv.sh
( timeout 300 bash "$t/s/demo.sh" ) >"$t/o1" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$1: does not apply"; exit 1; }
go build ./... >"$t/b" 2>&1 || { echo "$1: does not build"; cat "$t/b"; exit 1; }
go test -timeout 60s ./... >"$t/tests" 2>&1; tt=$?
( timeout 300 bash "$t/s/demo.sh" ) >"$t/o2" 2>&1; b=$?
if [ $a = 0 ] && [ $b != 0 ] && [ $tt = 0 ]; then echo "$1: counts ($(tail -1 "$t/o2" | cut -c1-100))"; else echo "$1: BAD clean=$a patched=$b tests=$tt"; [ $a != 0 ] && tail -5 "$t/o1"; [ $tt != 0 ] && grep -E "^\s*--- FAIL|FAIL" "$t/tests" | head -5; fi
