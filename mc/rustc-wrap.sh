#!/bin/bash
# RUSTC_WRAPPER: instrument the atomics of the code under test (starry, crossbeam, glue).
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  starry|glue|crossbeam*) exec "$rustc" "$@" -C passes=tsan ;;
  *) exec "$rustc" "$@" ;;
esac
