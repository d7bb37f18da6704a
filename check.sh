#!/bin/bash
# check.sh <property>: decide one property on /repo's current tree
. "$(dirname "$0")/env.sh"
if [ ! -x "$here/bin/gover" ] || [ -n "$(find "$here/gover" -newer "$here/bin/gover" -print -quit)" ]; then
  build_gover || exit 3
fi
export PATH="/opt/veriftools/go1.23.12/bin:$PATH"
exec "$here/bin/gover" check -verif "$here" -repo "${GOVER_REPO:-/repo}" "$1"
