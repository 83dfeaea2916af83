#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
v=$(pwd)
new=$(find engine -name '*.go' -newer bin/symgo -print -quit 2>/dev/null)
if [ ! -x bin/symgo ] || [ -n "$new" ]; then
  bash ./build.sh || exit 2
fi
exec bin/symgo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -harness "$v/harness" -repo /repo -out "$v"
