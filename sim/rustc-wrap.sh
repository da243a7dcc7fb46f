#!/bin/sh
# RUSTC_WRAPPER: instruments the code under test (every branch, load and store becomes a call into the
# simulator) and links the simulator into the simulated program.
rustc="$1"; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  cfg_expr|glue)
    passes=-Cpasses=sancov-module
    if [ -n "${SIM_STD:-}" ]; then
      # (only for the check that looks at the stack) optimised, but recursion stays recursion
      f='function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)'
      passes="-Cno-prepopulate-passes -Cpasses=$f,cgscc(inline),$f,cgscc(inline),$f,sancov-module"
    fi
    exec "$rustc" "$@" $passes -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  update)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg="$SIM_OBJ" -Clink-arg="$SIM_OBJ2" ;;
  libsim)
    exec "$rustc" "$@" -Clink-arg="$SIM_OBJ" ${SIM_OBJ3:+-Clink-arg="$SIM_OBJ3"} ;;
  core|alloc|std|smallvec|target_lexicon)
    # (only for the check that counts steps) branches of the standard library are counted
    if [ -n "${SIM_STD:-}" ]; then
      exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc
    fi
    exec "$rustc" "$@" ;;
  *) exec "$rustc" "$@" ;;
esac
