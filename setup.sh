#!/bin/bash
# build the condition generator and warm the harness build
set -e
. "$(dirname "$0")/env.sh"
build_gover
export PATH="/opt/veriftools/go1.23.12/bin:$PATH"
(cd "$here/harness" && go build -o /dev/null . && go build -race -o /dev/null .) || echo "harness does not build (a check reports it again)"
