#!/bin/bash
# builds main.rs against the babs crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
babs = { path = "$repo" }
num-traits = "0.2"
[workspace]
T
cd "$s"
CARGO_TARGET_DIR="$s/target" timeout 250 cargo run --offline -q
