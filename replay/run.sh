#!/bin/bash
# run.sh PROP SEED SECS: look for a failing input of the property in the code at $GOVER_REPO (default /repo)
here=$(cd "$(dirname "$0")" && pwd)
repo=${GOVER_REPO:-/repo}
w=$(mktemp -d /tmp/replay.XXXXXX); [ -n "$REPLAY_KEEP" ] && echo $w >&2
[ -n "$REPLAY_KEEP" ] || trap 'chmod -R u+w "$w" 2>/dev/null; rm -rf "$w"' EXIT
cp "$here"/*.go "$w"/
{ echo "module replay"; echo; echo "go 1.21"; echo
  echo "require github.com/xeipuuv/gojsonschema v0.0.0"
  sed -n '/^require (/,/^)/p' "$repo/go.mod"
  echo "replace github.com/xeipuuv/gojsonschema => $repo"; } > "$w/go.mod"
[ -f "$repo/go.sum" ] && cp "$repo/go.sum" "$w/go.sum"
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOTOOLCHAIN=local
race=
case $1 in C13|C21) race=-race;; esac
cd "$w" || exit 2
go build $race -o r . >build.log 2>&1 || { cat build.log; exit 2; }
GORACE="halt_on_error=1 exitcode=66" timeout -s QUIT $(( $3 + 20 )) ./r "$1" "$2" "$3" >out.log 2>err.log
rc=$?
cat out.log
if [ $rc = 66 ] || grep -q "DATA RACE" err.log; then
  printf 'FOUND {"what":"data race","report":%s}\n' "$(head -c 3000 err.log | python3 -c 'import json,sys; print(json.dumps(sys.stdin.read()))')"
  exit 1
fi
if [ $rc != 0 ] && ! grep -q ^FOUND out.log; then
  if grep -q "fatal error: \|stack overflow\|goroutine stack exceeds\|^panic:" err.log; then
    printf 'FOUND {"what":"crash","report":%s}\n' "$(head -c 3000 err.log | python3 -c 'import json,sys; print(json.dumps(sys.stdin.read()))')"
    exit 1
  fi
  head -c 2000 err.log
fi
exit $rc
