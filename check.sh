#!/bin/bash
# check.sh <property id>: builds the simulator against /repo's working tree and checks one property.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: harness error.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 2
export GIFSIM_ROOT="$here"
exec "$here/sim/target/release/gifsim" check "$1"
