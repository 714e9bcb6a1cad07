#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test (and the thread pool of its PBF reader) with
# SanitizerCoverage's edge callbacks and ThreadSanitizer's calls for atomic operations (and for these
# only; no race detector runs), which the simulator uses as preemption points.
prev=; name=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
S=("-Cpasses=sancov-module function(tsan)" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
   -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0)
case "$name" in
  osmgraphing) exec "$@" "${S[@]}" --cfg osmgraphing_sim ;;
  par_map|futures_cpupool) exec "$@" "${S[@]}" ;;
  osmgraphing_sim|mchc_sim|apirun) exec "$@" "${S[@]}" "-Clink-arg=$SIM_LIBDIR/libsim.so" "-Clink-arg=-Wl,-rpath,$SIM_LIBDIR" ;;
esac
exec "$@"
