#!/bin/bash
# Build the simulator from /verif/sim and /repo's current working tree, with the clock seam on.
set -u
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p target
# Rebuild on content, not on time stamps: a restored file may carry an old modification time.
STAMP=$( { find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum )
if [ "$STAMP" != "$(cat target/repo.stamp 2>/dev/null)" ]; then
    rm -f "$PWD/target/repo.stamp"
    cargo clean --release --offline -p box2d-rs >/dev/null 2>&1
fi
for try in 1 2; do
    if cargo build --release --offline >target/build.log 2>&1; then
        echo "$STAMP" >target/repo.stamp
        exit 0
    fi
    cargo clean --release --offline -p box2d-rs >/dev/null 2>&1
done
grep -E '^error' -A8 target/build.log | head -60
echo "build of the simulator failed"
exit 2
