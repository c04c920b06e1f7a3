#!/bin/bash
# Builds demo.rs against the library in the current directory several times (two x86 processors and
# WebAssembly) and compares what the builds compute.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/lib.rs"
cat >> "$d/src/lib.rs" <<T
#[no_mangle]
pub extern "C" fn result_of(i: u32) -> u32 {
    results()[i as usize]
}
#[no_mangle]
pub extern "C" fn results_count() -> u32 {
    results().len() as u32
}
T
cat > "$d/src/main.rs" <<T
fn main() {
    let r = demo::results();
    println!("{}", r.len());
    r.iter().for_each(|x| println!("{x}"));
}
T
cat > "$d/run.mjs" <<T
import fs from 'node:fs';
const e = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), {}).exports;
const n = e.results_count();
console.log(n);
for (let i = 0; i < n; i++) console.log(e.result_of(i) >>> 0);
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
crate-type = ["rlib", "cdylib"]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = { version = "0.29", features = ["core-simd", "libm"] }
[profile.dev]
debug = false
T
cd "$d" || exit 3
CARGO_TARGET_DIR=$d/a cargo run --offline --quiet >a.out 2>a.err & p1=$!
RUSTFLAGS="-C target-feature=+fma,+avx2" CARGO_TARGET_DIR=$d/b cargo run --offline --quiet >b.out 2>b.err & p2=$!
(CARGO_TARGET_DIR=$d/c cargo build --lib --offline --quiet --target wasm32-unknown-unknown && node run.mjs c/wasm32-unknown-unknown/debug/demo.wasm) >c.out 2>c.err & p3=$!
for p in $p1 $p2 $p3; do wait $p || { tail -20 ./*.err; exit 1; }; done
cmp a.out b.out && cmp a.out c.out || exit 1
