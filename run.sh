#!/bin/bash
# Builds the simulator against /repo's working tree and runs it.
#   run.sh setup | check PROP [quick|thorough] | replay FILE | one PROP RUN | hashes PROP FROM TO STRIDE
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
REPO=/repo
T=$VERIF/target
export CARGO_NET_OFFLINE=true
mkdir -p "$T" evidence replays
build_rt() {
    mkdir -p "$T/rt"
    if [ ! -f "$T/rt/libsimrt.so" ] || [ sim/rt/simrt.c -nt "$T/rt/libsimrt.so" ] || [ sim/rt/simrt.h -nt "$T/rt/libsimrt.so" ]; then
        clang -O2 -g -fPIC -shared -fno-delete-null-pointer-checks -Wno-pointer-bool-conversion \
            -o "$T/rt/.libsimrt.so.tmp" sim/rt/simrt.c -ldl -lpthread && mv "$T/rt/.libsimrt.so.tmp" "$T/rt/libsimrt.so"
    fi
}
# cargo decides by modification times; content decides here, so that restored files with old times are seen too.
stamp() { (cd "$REPO" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; cat "$VERIF"/sim/Cargo.toml) | sha256sum | cut -d' ' -f1; }
build_sim() {
    local s; s=$(stamp)
    local flags="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
    flags="$flags -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
    if [ "$s" != "$(cat "$T/sim.stamp" 2>/dev/null)" ]; then rm -rf "$T"/sim/x86_64-unknown-linux-gnu/debug/.fingerprint/rusty-systems-*; fi
    rm -f "$T/sim.stamp"
    (cd sim && SIMRT_DIR="$T/rt" RUSTFLAGS="$flags" cargo +nightly build -q --offline --target x86_64-unknown-linux-gnu \
        -Zbuild-std=std,panic_unwind --target-dir "$T/sim") || return 1
    # The run-time must come before libc, or it would not be in charge.
    local first; first=$(readelf -d "$T/sim/x86_64-unknown-linux-gnu/debug/dst" | grep NEEDED | head -1)
    case "$first" in *libsimrt.so*) ;; *) echo "libsimrt.so is not the first library: $first"; return 1;; esac
    echo "$s" > "$T/sim.stamp"
}
build_cli() {
    local s; s=$(stamp)
    if [ "$s" != "$(cat "$T/cli.stamp" 2>/dev/null)" ]; then rm -rf "$T"/cli/debug/.fingerprint/rusty-systems-*; fi
    rm -f "$T/cli.stamp"
    cargo build -q --offline --locked --features lsystem --bin lsystem --manifest-path "$REPO/Cargo.toml" --target-dir "$T/cli" || return 1
    echo "$s" > "$T/cli.stamp"
}
build() { ( flock 9; build_rt && build_sim && { [ "$1" != cli ] || build_cli; } ) 9>"$T/lock"; }
DST=$T/sim/x86_64-unknown-linux-gnu/debug/dst
export DST_VERIF=$VERIF
case "$1" in
    setup) build cli >"$T/build.log" 2>&1 || { tail -40 "$T/build.log"; echo "the build failed"; exit 2; }; exit 0 ;;
esac
what=
[ "$2" = C11 ] && what=cli
[ "$1" = replay ] && what=cli
if ! build $what >"$T/build.log.$$" 2>&1; then tail -40 "$T/build.log.$$"; rm -f "$T/build.log.$$"; echo "HARNESS ERROR: the build failed"; exit 2; fi
rm -f "$T/build.log.$$"
[ -n "$3" ] && [ "$1" = check ] && export DST_TIER=$3
exec "$DST" "$@"
