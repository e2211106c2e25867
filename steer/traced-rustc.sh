#!/bin/sh
# Compiler wrapper: comparison tracing for the library and the code that
# instantiates its generic functions, and for nothing else. Of the optimiser
# only those passes run that leave every written condition in place.
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name=$a
    prev=$a
done
case "$name" in
ntrust_native | monitors | steer)
    exec "$@" -Cno-prepopulate-passes "-Cpasses=function(sroa,early-cse),cgscc(inline),function(sroa,early-cse) sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares \
        -Cllvm-args=-max-loads-per-memcmp=0
    ;;
*) exec "$@" ;;
esac
