#!/bin/bash
# builds and runs the demonstration beside this file against the figment in the current directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
W="$PWD/target/demo-src"
mkdir -p "$W/src" && cp "$D/demo.rs" "$W/src/main.rs" && cp Cargo.lock "$W/Cargo.lock" || exit 99
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
figment = { path = "$PWD", features = ["env", "json", "toml", "yaml", "test"] }
serde = { version = "1", features = ["derive"] }
[workspace]
T
cd "$W" || exit 99
touch src/main.rs
export CARGO_TARGET_DIR="$W/../demo-target" CARGO_NET_OFFLINE=true
cargo build -q --offline || exit 98
exec "$CARGO_TARGET_DIR/debug/demo"
