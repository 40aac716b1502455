#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build_checker || exit 1
cd /repo && go list ./... >/dev/null
