#!/bin/bash
# check.sh <property> | check.sh replay <file> : rebuild against /repo's working tree, then run the model checker
cd /verif || exit 2
log=$(mktemp /tmp/mc-build.XXXXXX)
if ! /verif/mc/build.sh >"$log" 2>&1; then
  echo "build of the checker against /repo failed:" >&2; grep -A8 '^error' "$log" | head -60 >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
if [ "$1" = replay ]; then cd - >/dev/null; exec /verif/mc/target/debug/mc replay "$(realpath "$2")"; fi
exec /verif/mc/target/debug/mc check "$1"
