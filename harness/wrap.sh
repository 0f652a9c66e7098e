#!/bin/bash
# rustc wrapper: instrument every memory access of the crate under test (and of nothing else)
# with calls to __asan_*; the driver defines these, no sanitizer run-time is linked. The tsan pass,
# applied to functions that are not marked for it, replaces their atomic operations only, by __tsan_atomic*.
rustc="$1"; shift
if [[ " $* " == *" --crate-name matrixmultiply "* ]]; then
  exec "$rustc" "$@" -Zsanitizer=address -Zexternal-clangrt \
    -Cllvm-args=-asan-instrumentation-with-call-threshold=0 -Cllvm-args=-asan-stack=0 \
    -Cllvm-args=-asan-globals=0 -Cllvm-args=-asan-opt=0 -Cllvm-args=-asan-instrument-atomics=0 \
    -Cpasses=tsan -Cllvm-args=-tsan-instrument-func-entry-exit=0
fi
exec "$rustc" "$@"
