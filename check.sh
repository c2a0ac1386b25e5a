#!/bin/bash
# check.sh ID [check flags...]: builds the harness against /repo's working tree and decides property ID.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="${1:?usage: check.sh ID [flags]}"; shift
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
bin="$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX")" || exit 2
trap '/bin/rm -rf "$bin"' EXIT
args=(); for a in "$@"; do [ -f "$a" ] && a="$(realpath "$a")"; args+=("$a"); done
cd "$here/harness" || exit 2
. "$here/tools/build.sh" "$id" "$bin" || exit 2
"$bin/check" -prop "$id" -verif "$here" "${args[@]}"
exit $?
