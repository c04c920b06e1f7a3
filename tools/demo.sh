#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = { version = "0.29", features = ["core-simd", "libm"] }
rkyv = { version = "0.7", features = ["validation"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = { version = "1.0", features = ["float_roundtrip"] }
[profile.dev]
debug = false
T
cd "$d" && cargo run --offline --quiet -- "$repo"
