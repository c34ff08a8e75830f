#!/bin/bash
# RUSTC_WRAPPER of the variant "fine": scheduling points inside the library, and only there.
rustc=$1; shift
case " $* " in
*" --crate-name dmidecode "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
