#!/bin/bash
# build.sh [asan]: build the harness and the library from /repo's current tree.
# Rebuilds whenever the content of the sources changed, whatever their
# timestamps say. With "asan": a second build with AddressSanitizer, which only
# the nightly compiler has.
cd "$(dirname "$0")" || exit 2
. ./env.sh
out=target flags="-Awarnings" more=
if [ "$1" = asan ]; then
    export RUSTUP_TOOLCHAIN=nightly
    out=target-asan flags="-Awarnings -Adangerous_implicit_autorefs -Zsanitizer=address" more="--target x86_64-unknown-linux-gnu"
fi
mkdir -p $out
now=$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; cd /verif && find harness/Cargo.toml harness/Cargo.lock harness/src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$now" != "$(cat $out/.sources 2>/dev/null)" ]; then
    rm -f $out/.sources
    # (A fresh directory has nothing to clean, and cargo refuses to.)
    [ ! -e $out/CACHEDIR.TAG ] || cargo clean --offline --manifest-path harness/Cargo.toml --target-dir $out $more -p serde_yaml -p vharness || exit 2
fi
RUSTFLAGS="$flags" cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir $out $more || exit 2
echo "$now" >$out/.sources
