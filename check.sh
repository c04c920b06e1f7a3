#!/bin/bash
# usage: check.sh build | check.sh PROP [quick|thorough] | check.sh replay FILE | check.sh selftest [RUNS [PROP]]
cd "$(dirname "$0")" || exit 2
export OZZSIM_DIR="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
log="$(mktemp)"
if ! (cd sim && cargo build --release --offline --quiet) >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
bin="$PWD/target/release/ozzsim"
# The members of the fleet of C19: the same code for other processors and profiles.
fleet() {
  local out; out="$(mktemp -d)"
  member() { # name, directory, flags, cargo arguments
    (cd "$2" && CARGO_TARGET_DIR="$OZZSIM_DIR/target/fleet-$1" RUSTFLAGS="$3" cargo build --offline --quiet "${@:4}") >"$out/$1" 2>&1 || touch "$out/$1.failed"
  }
  local w="--target wasm32-unknown-unknown" z="-C link-arg=-zstack-size=8388608"
  member dev sim "" --profile fleetdev &
  member native sim "-C target-cpu=native" --profile ship &
  member wasm sim/fleet/wasm "$z" --release $w &
  member simd sim/fleet/wasm "$z -C target-feature=+simd128" --profile ship $w &
  wait
  if ls "$out" | grep -q failed; then
    for f in "$out"/*.failed; do tail -30 "${f%.failed}"; done
    rm -rf "$out"; echo "build failed"; exit 2
  fi
  rm -rf "$out"
}
needs_fleet() { case "$1" in C19) return 0 ;; replay) grep -q '"property": "C19"' "$2" ;; selftest) [ -z "$3" ] || [ "$3" = C19 ] ;; *) return 1 ;; esac; }
if needs_fleet "$@"; then fleet; fi
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  selftest) shift; exec "$bin" selftest "$@" ;;
  *) tier="${2:-${VERIF_TIER:-quick}}"; exec "$bin" check "$1" --tier "$tier" ;;
esac
