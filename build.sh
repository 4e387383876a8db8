#!/bin/bash
# Builds the simulator, the shipped tool and the tool's shim from /repo's current working tree.
# Usage: build.sh        the in-process simulator
#        build.sh cli    and the shipped tool with its shim
#        build.sh frames the in-process simulator with the check of the building blocks (C24)
#        build.sh wasm   the in-process simulator and the 32-bit node (C25)
#        build.sh big    the in-process simulator and the big-endian node (C26)
#        build.sh edges  the in-process simulator with an instrumented library
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
root=$(pwd -P)
t=$root/target
mkdir -p "$t" work replays evidence
exec 9>"$t/.buildlock"
flock 9
# cargo goes by modification times; copies and checkouts may carry misleading ones, so go by contents
sum=$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | sort | xargs -d '\n' sha256sum | sha256sum)
mine=$(find sim/src sim/Cargo.toml sim/Cargo.lock oldver seams -type f | sort | xargs -d '\n' sha256sum | sha256sum)
edges=$(sha256sum <rustc-edges)
stale() { # stale STAMP SUM
    [ "$(cat "$t/$1" 2>/dev/null)" != "$2" ]
}
run() {
    local log; log=$(mktemp "$root/work/build.XXXXXX")
    if ! "$@" >"$log" 2>&1; then
        grep -E '^(error|fatal)' -A 12 "$log" >&2 || tail -n 40 "$log" >&2
        echo "build failed: $*" >&2
        /bin/rm -f "$log"
        exit 2
    fi
    /bin/rm -f "$log"
}
if [ "${1:-}" = edges ]; then
    # the same simulator with the code under test calling back at every edge of its control flow
    if stale stamp.edges "$sum $mine $edges" || [ ! -x "$t/edges/release/dst" ]; then
        /bin/rm -rf "$t"/edges/release/.fingerprint/adhoc_audio-* "$t"/edges/release/.fingerprint/dst-*
        (cd sim && RUSTC_WRAPPER=$root/rustc-edges run cargo build --release --offline --locked --target-dir "$t/edges") || exit 2
        echo "$sum $mine $edges" >"$t/stamp.edges"
    fi
    exit 0
fi
if [ "${1:-}" = frames ]; then
    if stale stamp.frames "$sum $mine" || [ ! -x "$t/frames/release/dst" ]; then
        /bin/rm -rf "$t"/frames/release/.fingerprint/adhoc_audio-* "$t"/frames/release/.fingerprint/dst-*
        (cd sim && run cargo build --release --offline --locked --features frames --target-dir "$t/frames") || exit 2
        echo "$sum $mine" >"$t/stamp.frames"
    fi
    exit 0
fi
if stale stamp.dst "$sum $mine" || [ ! -x "$t/release/dst" ]; then
    /bin/rm -rf "$t"/release/.fingerprint/adhoc_audio-* "$t"/release/.fingerprint/dst-*
    (cd sim && run cargo build --release --offline --locked --target-dir "$t") || exit 2
    echo "$sum $mine" >"$t/stamp.dst"
fi
if [ "${1:-}" = wasm ]; then
    wsum=$(find wasm build32.sh sim/src -type f | sort | xargs -d '\n' sha256sum | sha256sum)
    if stale stamp.wasm "$sum $wsum" || [ ! -s "$t/node32.wasm" ]; then
        /bin/rm -rf "$t"/wasm/wasm32-unknown-unknown/release/.fingerprint/adhoc_audio-* "$t"/wasm/wasm32-unknown-unknown/release/.fingerprint/node32-*
        run ./build32.sh "$t/wasm"
        cp "$t/wasm/wasm32-unknown-unknown/release/node32.wasm" "$t/node32.wasm.new" && /bin/mv -f "$t/node32.wasm.new" "$t/node32.wasm" || exit 2
        echo "$sum $wsum" >"$t/stamp.wasm"
    fi
fi
if [ "${1:-}" = big ]; then
    bsum=$(echo "$root"; find big buildbig.sh sim/src wasm/seams -type f | sort | xargs -d '\n' sha256sum | sha256sum)
    if stale stamp.big "$sum $bsum" || [ ! -s "$t/big.sh" ]; then
        /bin/rm -rf "$t/big/miri"
        run ./buildbig.sh "$t/big" "$t/big.sh"
        echo "$sum $bsum" >"$t/stamp.big"
    fi
fi
if [ "${1:-}" = cli ]; then
    shimsum=$(sha256sum <clishim/shim.c)
    if stale stamp.shim "$shimsum" || [ ! -f "$t/clishim.so" ] || [ ! -f "$t/clistub.so" ]; then
        run gcc -O2 -Wall -Wextra -U_FORTIFY_SOURCE -fPIC -shared -o "$t/clishim.so.new" clishim/shim.c -ldl -pthread
        # what the tool is linked against; the shim takes its place when it is preloaded
        echo 'void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) { (void)a, (void)b; }
            void __sanitizer_cov_trace_pc_guard(unsigned *g) { (void)g; }' |
            gcc -O2 -fPIC -shared -o "$t/clistub.so" -x c - || exit 2
        /bin/mv -f "$t/clishim.so.new" "$t/clishim.so"
        echo "$shimsum" >"$t/stamp.shim"
    fi
    if stale stamp.cli "$sum $edges" || [ ! -x "$t/cli/release/adhoc_audio" ]; then
        /bin/rm -rf "$t"/cli/release/.fingerprint/adhoc_audio-*
        (cd /repo && RUSTC_WRAPPER=$root/rustc-edges EDGES_LINK=$t/clistub.so CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
            run cargo build --release --offline --locked --target-dir "$t/cli" --bin adhoc_audio) || exit 2
        echo "$sum $edges" >"$t/stamp.cli"
    fi
fi
exit 0
