#!/bin/bash
# Builds the simulator and the program under test (from /repo's working tree) into /verif/.build.
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B" || exit 3
exec 9> "$B/lock"; flock 9
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.63.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset GRAPH_DIM RUST_LOG RUSTC RUSTFLAGS CARGO_ENCODED_RUSTFLAGS LD_PRELOAD
if [ ! -e "$B/libsim.so" ] || [ "$V/shim/sim.c" -nt "$B/libsim.so" ]; then
  gcc -shared -fPIC -O2 -Wall -o "$B/libsim.so.tmp" "$V/shim/sim.c" -ldl -lpthread && mv "$B/libsim.so.tmp" "$B/libsim.so" || exit 3
fi
export SIM_LIBDIR=$B RUSTC_WRAPPER=$V/tools/rustc-wrap.sh CARGO_TARGET_DIR=$B/target
cd "$V/target_pkg" && cargo --config /opt/vp/cargo-offline.toml build --release --offline --locked > "$B/build.log" 2>&1
rc=$?
[ $rc = 0 ] || { tail -60 "$B/build.log" >&2; exit 4; }
