#!/bin/bash
# Builds the replay finder against /repo and warms the verifier up. Everything goes to /verif/.build.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
cd harness && CARGO_NET_OFFLINE=true cargo build --offline --quiet --bin sv --target-dir ../.build/harness
