#!/bin/bash
# replay.sh FILE [-v]: executes a replay file against /repo's current working tree (exit 1 if it violates something)
cd "$(dirname "$0")" && set -- "$(realpath "$1")" "${2:-}"
out=$(python3 build.py) || exit 2
d=$(mktemp -d) && "$(sed -n 1p <<<"$out")" "$(sed -n 2p <<<"$out")" "$d/w99" replay "$1" $2
rc=$?
rm -rf -- "$d"
exit $rc
