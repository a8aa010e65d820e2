#!/bin/sh
# rustc wrapper of the coverage build: instruments the code under test and the harness (generic code of the
# former is compiled into the latter), nothing else
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then
    case $a in
      layered_nlp|layered_amount|layered_clauses|layered_part_of_speech|vharness)
        exec "$rustc" "$@" --cfg vcov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=16 ;;
    esac
  fi
  prev=$a
done
exec "$rustc" "$@"
