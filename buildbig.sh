#!/bin/bash
# Prepares the big-endian node offline: buildbig.sh TARGET-DIR SCRIPT
# The library and the simulator's sessions are compiled for Miri; SCRIPT SEED VERBOSE PLAN interprets a session.
set -eu
here=$(cd "$(dirname "$0")" && pwd -P)
t=$1
export MIRI_SYSROOT=$t/sysroot MIRIFLAGS=
target=s390x-unknown-linux-gnu
mkdir -p "$t"
cargo +nightly miri setup --target $target
cd "$here/big"
cargo +nightly miri run --offline --locked --target $target --target-dir "$t" -v -- 0 'dst-plan 1
prop C01
seed 1
index 1
' </dev/null >"$t/log" 2>&1 || { cat "$t/log"; exit 1; }
flags='-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-weak-memory-emulation -Zmiri-disable-data-race-detector -Zmiri-ignore-leaks -Zmiri-deterministic-floats -Zmiri-no-extra-rounding-error'
sed -n 's/^\[cargo-miri runner\] running command: //p' "$t/log" | tail -1 |
    sed -e 's/ && env -u MIRI_BE_RUSTC / \&\& exec env -u MIRI_BE_RUSTC /' -e 's/"-C" "incremental=[^"]*" //' -e "s# \"--\" \"0\" .*# $flags -Zmiri-seed=\"\$1\" -- \"\$2\" \"\$3\"#" >"$2.new"
grep -q 'miri-seed=' "$2.new"
/bin/mv -f "$2.new" "$2"
