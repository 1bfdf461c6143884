#!/bin/bash
# Builds a small wasm program on top of /repo and runs demo.mjs on it with a simulated host.
# Exit 0: behaves as documented. Non-zero: does not (or does not build).
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/kit/." "$t/" || exit 2
cp "$here/demo.mjs" "$t/" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
features=()
grep -q 'FEATURE tokio-test-util' "$t/demo.mjs" && features=(--features testutil)
profile=checked
grep -q '^// RELEASE' "$t/demo.mjs" && profile=plain
cargo build --offline --locked --manifest-path "$t/Cargo.toml" --target wasm32-unknown-unknown --profile $profile --target-dir "$t/target" "${features[@]}" > "$t/build.log" 2>&1 || { tail -40 "$t/build.log"; exit 2; }
/opt/wasm-bindgen/bin/wasm-bindgen "$t/target/wasm32-unknown-unknown/$profile/vharness.wasm" --target no-modules --no-typescript --out-dir "$t/art" || exit 2
cd "$t" && timeout 120 node demo.mjs
