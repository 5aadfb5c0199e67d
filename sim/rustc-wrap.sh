#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage callbacks to the library under test (and
# to nothing else).  Every basic-block edge and every load/store of the library
# becomes an event of the simulator (src/sched.rs): a scheduling point, a tick of
# simulated time and a coverage counter.  Nothing in /repo is changed for it.
rustc="$1"; shift
case " $* " in
  *" --crate-name cddl_cat "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
