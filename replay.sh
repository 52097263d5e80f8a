#!/bin/bash
# Replays a failing case: replay.sh REPLAY_FILE
# Builds the property's check from /repo's working tree and runs that one case.
set -e
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
prop=$(sed -n 's/^property: //p' "$f")
d=$(mktemp -d)
python3 - "$here" "$prop" "$d" <<'PY'
import sys
sys.path.insert(0, sys.argv[1])
import check
check.config_header(sys.argv[3])
check.build(sys.argv[2], sys.argv[3], "quick")
PY
"$d/check" --dir "$d" --replay "$f" >/dev/null || rc=$?
rm -rf "$d"
exit ${rc:-0}
