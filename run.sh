#!/bin/bash
# run.sh <property id> : decide one property on /repo's current tree by static analysis.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
fail() { # an analysis that gives no answer is reported as a violation, never as silence
  mkdir -p "$here/evidence"
  printf '[{"rule":"machinery","construct":"%s","pos":"-","msg":"%s"}]\n' "$2" "$3" > "$here/evidence/$1.violations.json"
  [ -s "$here/evidence/$1.json" ] || printf '{"property":"%s","tier":"quick","seed":1,"level":"other","coverage":{"explanation":"%s"},"wall_s":0,"violations":1}\n' "$1" "$3" > "$here/evidence/$1.json"
  echo "VIOLATION property=$1 replay=$here/evidence/$1.violations.json"
  exit 1
}
build_checker || fail "$1" build "the checker could not be built"
export LENSCHECK_VERIF="$here"
timeout 600 "$here/.cache/lenscheck" "$1" 2>"$here/.cache/stderr.$$"
rc=$?
head -c 4000 "$here/.cache/stderr.$$" >&2
rm -f "$here/.cache/stderr.$$"
[ $rc = 0 ] && exit 0
[ $rc = 1 ] && exit 1
fail "$1" crash "the analysis ended with status $rc"
