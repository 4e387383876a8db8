#!/bin/bash
# Builds the 32-bit node (wasm32-unknown-unknown) offline: build32.sh TARGET-DIR
# The target's standard library is built from the toolchain's own sources; cargo reads those and the
# registry's through one directory source made of links.
set -eu
here=$(cd "$(dirname "$0")" && pwd -P)
t=$1
v=$t/vendor
std=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
/bin/rm -rf "$v.new" && mkdir -p "$v.new"
ln -s "$std"/vendor/* "$v.new/"
reg=${CARGO_HOME:-$HOME/.cargo}/registry/src
awk -v RS= '/source = "registry/ { n = v = c = ""
    for (i = 1; i < NF; i++) { if ($i == "name") n = $(i+2); if ($i == "version") v = $(i+2); if ($i == "checksum") c = $(i+2) }
    gsub(/"/, "", n); gsub(/"/, "", v); gsub(/"/, "", c); print n, v, c }' "$here/wasm/Cargo.lock" |
while read -r n ver sum; do
    src=$(echo "$reg"/*/"$n-$ver")
    /bin/rm -rf "$v.new/$n-$ver" && mkdir "$v.new/$n-$ver"
    ln -s "${src%% *}"/* "$v.new/$n-$ver/"
    echo "{\"files\":{},\"package\":\"$sum\"}" >"$v.new/$n-$ver/.cargo-checksum.json"
done
/bin/rm -rf "$v" && mv "$v.new" "$v"
cd "$here/wasm"
cargo +nightly build --release --offline --locked --target wasm32-unknown-unknown -Zbuild-std=std,panic_abort --target-dir "$t" \
    --config 'source.crates-io.replace-with="linked"' --config "source.linked.directory=\"$v\""
