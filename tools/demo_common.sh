#!/bin/bash
# Runs the test in demo.rs, appended to the file named in `where`, in a scratch copy of the tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/vp-demo.XXXXXX)
trap 'rm -rf -- "$t"' EXIT
cp -a Cargo.toml Cargo.lock src samples "$t"/
cat "$here/demo.rs" >> "$t/$(cat "$here/where")"
cd "$t"
export CARGO_TARGET_DIR="$t/target"
timeout 280 cargo test --offline --lib vp_demo -- --test-threads 1
