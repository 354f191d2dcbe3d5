#!/bin/bash
# Builds main.rs (beside this file) against the opg crate in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
opg = { path = "$repo/opg", features = ["uuid", "chrono"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
serde_repr = "0.1"
T
cd "$tmp"
if [ -f "$here/expect-error.txt" ]; then
    # the program must be rejected by the compiler with this message
    if cargo build --quiet --offline --target-dir "$tmp/target" > "$tmp/out" 2>&1; then
        echo "compiled, expected: $(cat "$here/expect-error.txt")"
        exit 1
    fi
    cat "$tmp/out"
    grep -q -F "$(cat "$here/expect-error.txt")" "$tmp/out"
    exit
fi
exec_out=0
cargo run --quiet --offline --target-dir "$tmp/target" || exec_out=$?
exit $exec_out
