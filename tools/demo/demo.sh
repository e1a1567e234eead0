#!/bin/bash
# Exit 0: the property holds in this demonstration. Built and run in a scratch directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$t/"
cd "$t"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline
