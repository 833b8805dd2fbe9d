#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test (and only it) so that each of its loads, stores and
# atomic operations calls into the simulator (simrt::tsan), and counts the code edges it executes.
# The serial configuration is built as a debug build would be in one respect: arithmetic overflow panics.
name=""; prev=""; overflow=on
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$a" = 'feature="rayon"' ] && overflow=off
  prev="$a"
done
case "$name" in
  gfwx)
    RUSTC_BOOTSTRAP=1 exec "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-read-before-write=1 \
      -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Coverflow-checks=$overflow -Cno-vectorize-loops -Cno-vectorize-slp ;;
  gfwxsim)
    RUSTC_BOOTSTRAP=1 exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$@" ;;
esac
