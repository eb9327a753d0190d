#!/bin/bash
# RUSTC_WRAPPER of the guided build: instruments the code under test and the checks, but not the
# engine that reads the counters, and not what runs at build time.
case " $* " in
*" --crate-name pbt "*|*" --crate-type proc-macro "*|*" --crate-name build_script_"*|*" --crate-name ___ "*|*/registry/*) exec "$@";;
*" --crate-name "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares \
    -Cllvm-args=-simplifycfg-branch-fold-threshold=0 -Clink-arg="$COV_O";;
*) exec "$@";;
esac
