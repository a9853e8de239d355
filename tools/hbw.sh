#!/bin/bash
# builds the harness with the wrapper
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/verif/build/target-wasm RUSTFLAGS=--cfg=dnssec_prover_verif
cd /verif/harness-wasm && cargo build --offline 2>&1
