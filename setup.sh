#!/bin/bash
# Builds the checks, the commands under test and the fault-injection shim once, so that
# each check only rebuilds what depends on /repo.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_OPT_LEVEL=1
mkdir -p target evidence
cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target/harness --bins
cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir target/repo -p gc-command --bins
gcc -O1 -shared -fPIC -o target/shim.so shim/shim.c -ldl
