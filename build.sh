#!/bin/bash
# Builds the simulator against /repo's working tree.
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
here=$(cd "$(dirname "$0")" && pwd)
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
chmod +x "$RUSTC_WRAPPER"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS
# The C sources are not tracked by cargo: a hash of them in CFLAGS forces a rebuild exactly when they change.
h=$(cd /repo/pqcrypto && find pqclean/common pqclean/crypto_sign pqcrypto-internals/cfiles pqcrypto-internals/include -type f -print0 2>/dev/null |
    LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
export CFLAGS="-DVP_C_SOURCES_$h -fsanitize-coverage=trace-pc"
cd "$here/sim" || exit 2
mkdir -p target
cargo build --release --offline --locked 2> target/build.log || { tail -50 target/build.log; echo "BUILD-ERROR"; exit 2; }
