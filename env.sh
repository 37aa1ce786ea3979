# Build environment of the checks: the toolchain that accepts this code base, offline.
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
