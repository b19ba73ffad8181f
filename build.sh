# Sourced by check.sh and setup.sh, with VH_ROOT set.
export HOME="${HOME:-/root}"
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR

# The sources under test: where the harness takes the crate from.
export VH_SRC="$(sed -n 's/^cafebabe *=.*path *= *"\([^"]*\)".*/\1/p' "$VH_ROOT/harness/dut/Cargo.toml")/src"
unset VH_DICT

# cargo goes by modification times; what counts is the contents of /repo.
fingerprint() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
}
build() { # target-dir cargo-arguments...
    local dir="$1" now
    shift
    now="$(fingerprint)"
    mkdir -p "$dir"
    if [ "$now" != "$(cat "$dir/repo.sha256" 2>/dev/null)" ]; then
        rm -rf "$dir"/release/.fingerprint/cafebabe-* "$dir"/release/.fingerprint/vh-*
    fi
    (cd "$VH_ROOT/harness/dut" && CARGO_TARGET_DIR="$dir" cargo build --offline --release --quiet "$@") || return 1
    printf '%s\n' "$now" >"$dir/repo.sha256"
}
build_default() { build "$VH_ROOT/target/vh"; }
build_threadsafe() { build "$VH_ROOT/target/vhts" --features threadsafe; }
