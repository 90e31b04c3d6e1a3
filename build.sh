# build the harness, the program of the repository and the monitor library
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cap-lints warn"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
(
    flock 9
    cd "$VERIF_DIR/harness" || exit 3
    if ! cargo build --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        grep -E "^error" -A 12 "$CARGO_TARGET_DIR/build.log" | head -60 >&2
        exit 3
    fi
) 9>"$CARGO_TARGET_DIR/build.lock" || { echo "cannot build" >&2; exit 3; }
# the monitor of file-system calls
( flock 9; if [ "$VERIF_DIR/fsmon/fsmon.c" -nt "$CARGO_TARGET_DIR/fsmon.so" ]; then
    gcc -O2 -fPIC -shared -fno-delete-null-pointer-checks -w -o "$CARGO_TARGET_DIR/fsmon.so.new" "$VERIF_DIR/fsmon/fsmon.c" -ldl &&
    mv -f "$CARGO_TARGET_DIR/fsmon.so.new" "$CARGO_TARGET_DIR/fsmon.so"
fi ) 9>"$CARGO_TARGET_DIR/build.lock" || { echo "cannot build fsmon" >&2; exit 3; }
