#!/bin/bash
# Builds the harness once; the checks rebuild what they need themselves.
ROOT=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
cd "$ROOT/harness" || exit 2
for f in plain serial usbdev nusb nusb,usbdev; do # C24 builds its own variant
    [ $f = plain ] && feat= || feat=$f
    cargo build --offline --no-default-features --features "$feat" --target-dir "target/$f" || exit 1
done
