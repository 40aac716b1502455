#!/bin/bash
# chk.sh <dir> <ids...>
here=/verif; . /verif/env.sh
d=$1; shift
mkdir -p ${EV:-/tmp/ev}; cp -f /verif/known_findings.txt ${EV:-/tmp/ev}/ 2>/dev/null
for id in "$@"; do LENSCHECK_VERIF=${EV:-/tmp/ev} LENSCHECK_REPO=$d timeout 300 /verif/.cache/lenscheck $id 2>&1 | cut -c1-330 | awk -v m=${LINES_MAX:-12} 'NR<=m||/VIOLATION/'; done
