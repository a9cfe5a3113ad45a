#!/bin/sh
# RUSTC_WRAPPER of the harness: compiles the crate under test, and the crate that holds its labels, with coverage
# callbacks (harness/cov), which the search uses as feedback and the scheduler as the points where it can switch threads.
case " $* " in
*" --crate-name prometrics "* | *" --crate-name atomic_immut "*)
    exec "$@" -C passes=sancov-module "-Cllvm-args=-sanitizer-coverage-level=3 -sanitizer-coverage-trace-pc-guard -sanitizer-coverage-trace-compares -sanitizer-coverage-prune-blocks=0 -sanitizer-coverage-trace-loads -sanitizer-coverage-trace-stores" ;;
esac
exec "$@"
