#!/bin/bash
# Build everything the checks need, offline.
set -eu
cd "$(dirname "$0")"
mkdir -p target evidence replays
(cd mc && cargo build --release --offline)
cargo build --offline --manifest-path /repo/Cargo.toml --target-dir "$PWD/target/repo" -p nora_scp -p nora_sshd
