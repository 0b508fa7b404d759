#!/bin/bash
# builds the whole harness offline; one binary that fails to build must not stop the others
cd "$(dirname "$0")/harness" && cargo build --release --offline --keep-going || true
cargo build --release --offline --lib
