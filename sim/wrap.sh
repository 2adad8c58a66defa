#!/bin/sh
# RUSTC_WRAPPER: instruments the crate under test (and nothing else) so that the simulator sees every
# basic block, load and store of it.
rustc="$1"; shift
case " $* " in
*" --crate-name ellipticcurve "*)
  # the pass for threads only for its view of atomic read-modify-writes, which the other one passes over
  RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" --cap-lints warn -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cllvm-args=-tsan-handle-cxx-exceptions=0 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*" --crate-name ecsim "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
*) exec "$rustc" "$@" ;;
esac
