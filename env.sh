# Build settings shared by all commands (sourced).
export FORMAT_TESTS=false
export LIBCLANG_PATH="${LIBCLANG_PATH:-/usr/lib/llvm-14/lib}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export JST_VERIF="$VERIF"
build() { # build [oniguruma]
    if [ "${1:-}" = oniguruma ]; then
        (cd "$VERIF/harness" && cargo build --release --offline --quiet --features oniguruma --target-dir target-onig)
    else
        (cd "$VERIF/harness" && cargo build --release --offline --quiet)
    fi
}
