#!/bin/sh
# Compiler wrapper of the coverage builds: instruments the crate under test and the code that instantiates it.
rustc=$1; shift
S="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
-Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
case " $* " in
*" --crate-name jpeg_encoder "*) exec "$rustc" "$@" $S ;;
*" --crate-name variant "*) exec "$rustc" "$@" $S -Clink-arg="$COVRT" ;;
*) exec "$rustc" "$@" ;;
esac
