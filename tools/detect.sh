#!/bin/bash
# detect.sh [ID...]: runs each planted change against its property's quick check; records what caught it in tools/detected.json
cd /verif || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  o="$(tools/try.sh seeded/$s/patch.diff $p)"; echo "$s $o"
  python3 - "$s" "$p" "$o" <<'P'
import json,sys,os,re
f='/verif/tools/detected.json'; d=json.load(open(f)) if os.path.exists(f) else {}
s,p,o=sys.argv[1:]
m=re.search(r'sub-check ([\w-]+)',o)
d[s]=[p+(' '+m.group(1) if m else '')] if 'exit=1' in o else []
json.dump(d,open(f,'w'),indent=0,sort_keys=True)
P
done
