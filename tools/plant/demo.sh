#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D"/*.rs "$T/src/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mysql_cdc = { path = "$R" }
hex = "*"
sha1 = "*"
openssl = "*"
[workspace]
X
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T"
CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline --quiet 2>&1
