#!/bin/bash
# run.sh ID: build the harness against /repo's working tree and decide one
# property. Exit 0: held; 1: VIOLATION line printed; anything else: no answer.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1 kind= bin=target/debug/vharness
if [ "$id" = C25 ]; then
    # Memory: misuse of it shows under AddressSanitizer.
    kind=asan bin=target-asan/x86_64-unknown-linux-gnu/debug/vharness
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16
    export VH_STACK=67108864
fi
mkdir -p work
log=work/build.$$
./build.sh $kind >$log 2>&1 || { echo "CHECK-ERROR the harness does not build"; tail -n 40 $log; rm -f $log; exit 2; }
rm -f $log
exec ./$bin run "$id"
