#!/bin/bash
# refcheck.sh [ID...]: runs the checks named in the first line of each behaviour-preserving rewrite in /verif/refactorings
# against a copy of /repo with it; all have to stay quiet.
cd /verif || exit 1
[ $# = 0 ] && set -- $(ls refactorings | sed 's/\.diff$//')
for r in "$@"; do
  tools/try.sh refactorings/$r.diff $(head -1 refactorings/$r.diff | tr -d '#') | sed -u "s/^/$r /"
done
