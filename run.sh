#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
"$here/build.sh" || { echo "ERROR: cannot build the engine"; exit 2; }
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
cd "$here" || exit 2
exec "$here/bin/gosym" -property "$id" -tier "$tier" -dir "$here/harness" -pkg "./$pkg" \
  -evidence "$here/evidence/$id.json" -findings "$here/known-findings.txt" -replaydir "$here/replays" "${@:3}"
