#!/bin/bash
# RUSTC_WRAPPER: instruments only the crates in which rcgal's code is generated
# (rcgal itself, and scen, where its generic functions are instantiated), so that
# every basic-block edge, load and store of library code calls the simulator.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  rcgal|scen)
    exec "$rustc" "$@" -C passes=sancov-module ${SIM_PCS:+-C llvm-args=-sanitizer-coverage-pc-table} \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
