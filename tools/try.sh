#!/bin/bash
# try.sh PATCH PROP...: runs checks against a scratch copy of /repo with PATCH applied (for development; the registered
# checks always use /repo). Prints one line per property.
patch="$(realpath "$1")"; shift
t="$(mktemp -d /tmp/try-XXXXXX)"; trap '/bin/rm -rf "$t"' EXIT
cp -a "${REPO:-/repo}" "$t/repo"; mkdir "$t/verif"; cp -a /verif/harness /verif/tools /verif/check.sh /verif/known_findings.json "$t/verif/"
[ -s "$patch" ] && { git -C "$t/repo" apply "$patch" || { echo "patch does not apply"; exit 2; }; }
sed -i "s#=> /repo#=> $t/repo#" "$t/verif/harness/go.mod"; sed -i "s# /repo # $t/repo #" "$t/verif/tools/build.sh"
rc=0
for p in "$@"; do
  s=$(date +%s); out="$("$t/verif/check.sh" "$p" -noevidence 2>&1)"; c=$?
  echo "$p exit=$c $(( $(date +%s) - s ))s $(grep -m1 'sub-check' <<<"$out" | cut -c1-230)"
  [ $c = 2 ] && tail -5 <<<"$out"
  [ -n "$V" ] && echo "$out"
done
