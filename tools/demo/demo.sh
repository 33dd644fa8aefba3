#!/bin/bash
# exit 0: the demonstration's expectations hold on the built tree
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=1.70.0
repo=$(pwd)
deps=$repo/target/debug/deps
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
one() { ls -t "$deps"/lib$1-*.rlib | head -1; }
rustc --edition 2018 -C debuginfo=0 -A warnings -L dependency="$deps" \
  --extern token_bonding_curve="$deps/libtoken_bonding_curve.rlib" \
  --extern solana_program="$(one solana_program)" --extern spl_token="$(one spl_token)" --extern anchor_lang="$(one anchor_lang)" \
  -o "$tmp/demo" "$here/demo.rs" || exit 2
"$tmp/demo"
