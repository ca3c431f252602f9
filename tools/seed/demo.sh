#!/bin/bash
# Compiles demo.rs against the contract in the current directory and runs it.
# Exit 0: the promise holds; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
unset DOCS_RS
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
# usually nothing to do: the library was just built
cargo build --workspace $FEATURES --offline --locked >"$dir/log" 2>&1 || { tail -n 20 "$dir/log"; exit 2; }
deps=$repo/target/debug/deps
for std in $(ls -t "$deps"/libcosmwasm_std-*.rlib); do
  for json in $(ls -t "$deps"/libserde_json-*.rlib); do
    if rustc --edition 2021 -C debuginfo=0 "$here/demo.rs" -o "$dir/demo" -L dependency="$deps" \
      --extern sumtree_orderbook="$repo/target/debug/libsumtree_orderbook.rlib" \
      --extern cosmwasm_std="$std" --extern serde_json="$json" >"$dir/log" 2>&1; then
      "$dir/demo"
      exit
    fi
  done
done
tail -n 30 "$dir/log"
exit 2
