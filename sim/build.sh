#!/bin/bash
# build.sh lib|update: builds one simulator against /repo's working tree and prints its build directory.
# Everything goes under /verif/build/<kind>-<hash of the sources it depends on>.
set -eu
kind="$1"
verif="$(cd "$(dirname "$0")/.." && pwd)"
repo="${SIM_REPO:-/repo}"
std=
if [ "$kind" = libstd ]; then std=1; fi
if [ "$kind" != update ]; then
  src="$repo/src $repo/Cargo.toml $verif/sim/rt $verif/sim/simval $verif/sim/glue $verif/sim/libsim $verif/sim/build.sh $verif/sim/rustc-wrap.sh"
else
  src="$repo/update/src $repo/update/Cargo.toml $verif/sim/rt $verif/sim/updsim $verif/sim/build.sh $verif/sim/rustc-wrap.sh"
fi
hash=$( (echo "$repo"; rustc --version; find $src -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
dir="$verif/build/$kind-$hash"
mkdir -p "$verif/build"
exec 9>"$verif/build/lock-$kind"
flock 9
if [ ! -e "$dir/ok" ]; then
  mkdir -p "$dir"
  export CARGO_TARGET_DIR="$dir/t" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
  unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC CARGO_BUILD_TARGET || true
  if [ "$kind" != update ]; then
    gcc -O2 -Wall -c "$verif/sim/rt/simrt.c" -o "$dir/simrt.o" >&2
    flags=; out="$dir/t/debug"
    if [ -n "$std" ]; then
      # with the standard library rebuilt and instrumented too
      gcc -O2 -Wall -fno-builtin -fno-tree-loop-distribute-patterns -c "$verif/sim/rt/simmem.c" -o "$dir/simmem.o" >&2
      export RUSTC_BOOTSTRAP=1 SIM_STD=1 SIM_OBJ3="$dir/simmem.o"
      flags="-Zbuild-std=core,alloc,std,panic_unwind --target x86_64-unknown-linux-gnu"; out="$dir/t/x86_64-unknown-linux-gnu/debug"
    fi
    if [ "$repo" != /repo ]; then
      # (development only) against a copy of the repository
      cp -r "$verif/sim" "$dir/sim"
      sed -i "s#path = \"/repo\"#path = \"$repo\"#" "$dir/sim/glue/Cargo.toml"
      cd "$dir/sim/libsim"
    else
      cd "$verif/sim/libsim"
    fi
    SIM_OBJ="$dir/simrt.o" RUSTC_WRAPPER="$verif/sim/rustc-wrap.sh" cargo build --offline $flags >"$dir/log" 2>&1 || { tail -50 "$dir/log" >&2; echo "the simulator does not build" >&2; exit 2; }
    cp "$out/libsim" "$dir/libsim"
  else
    bash "$verif/sim/updsim/build-update.sh" "$repo" "$dir" >"$dir/log" 2>&1 || { tail -50 "$dir/log" >&2; echo "the simulator does not build" >&2; exit 2; }
  fi
  [ -d "$dir/t" ] && find "$dir/t" -delete
  touch "$dir/ok"
fi
echo "$hash $dir"
