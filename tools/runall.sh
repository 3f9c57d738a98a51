#!/bin/bash
# Run every registered check once, one after another, on the current tree. Refreshes evidence/.
cd "$(dirname "$0")/.." || exit 2
rm -rf "$PWD/evidence/replay"
bad=0
for f in checks/c[0-9]*.py; do
    id=$(basename "$f" | cut -c1-3 | tr c C)
    ./run "$id" | tail -1
    [ "${PIPESTATUS[0]}" = 0 ] || { echo "$id NOT QUIET"; bad=1; }
done
exit $bad
