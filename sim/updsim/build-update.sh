#!/bin/bash
# build-update.sh REPO DIR: the real generator, instrumented and linked with the simulator, and the driver
set -eu
repo="$1"; dir="$2"
verif="$(cd "$(dirname "$0")/../.." && pwd)"
gcc -O2 -Wall -Wextra -DSIM_IO -c "$verif/sim/rt/simrt.c" -o "$dir/simrt.o"
gcc -O2 -Wall -Wextra -DSIM_IO -c "$verif/sim/rt/simio.c" -o "$dir/simio.o"
# a copy of the manifest and the sources, so that nothing (such as a Cargo.lock) is written to the repository
mkdir -p "$dir/update"
cp "$repo/update/Cargo.toml" "$dir/update/"
cp -r "$repo/update/src" "$dir/update/"
grep -q '^\[workspace\]' "$dir/update/Cargo.toml" || printf '\n[workspace]\n' >> "$dir/update/Cargo.toml"
cd "$dir/update"
SIM_OBJ="$dir/simrt.o" SIM_OBJ2="$dir/simio.o" RUSTC_WRAPPER="$verif/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$dir/t" \
  CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=1 cargo build --offline
cp "$dir/t/debug/update" "$dir/update.bin"
cd "$verif/sim/updsim"
CARGO_TARGET_DIR="$dir/t" cargo build --offline
cp "$dir/t/debug/updsim" "$dir/updsim"
