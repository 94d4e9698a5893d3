#!/bin/bash
# Run with the source tree of der-parser as working directory: builds the small program beside
# this file against that tree, in a scratch directory, and runs it. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-parser = { path = "$repo", features = ["std", "serialize", "bigint", "as_bitvec"] }
cookie-factory = "0.3"
EOF
cd "$scratch" || exit 2
CARGO_TARGET_DIR="$scratch/target" timeout 250 cargo run --offline --quiet
