#!/bin/bash
# rustc wrapper of the "fine" build: instruments the library's crates (and only them)
R=$1; shift
N=; P=; for a in "$@"; do [ "$P" = --crate-name ] && N=$a; P=$a; done
case $N in
imagequant|imagequant_sys) exec "$R" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$R" "$@" ;;
esac
