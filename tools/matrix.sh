#!/bin/bash
# matrix.sh [ID...]: runs each planted change's own property's check against a scratch copy with the change applied (for development).
cd /verif/seeded || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=(*)
for i in "${ids[@]}"; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$i/meta.json")
  echo "$i $(/verif/tools/try.sh "/verif/seeded/$i/patch.diff" "$p")"
done
