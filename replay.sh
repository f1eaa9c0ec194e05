#!/bin/bash
# replay.sh FILE: builds against /repo's working tree and replays a violation, printing its event log.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 2
export GIFSIM_ROOT="$here"
exec "$here/sim/target/release/gifsim" replay "$1"
