#!/bin/bash
# Builds the conformance harness against /repo's working tree.
. /opt/vp/env.sh
cd /verif/harness && RUSTFLAGS=--cfg=dnssec_prover_verif CARGO_TARGET_DIR=/verif/build/target cargo build --offline "$@" 2>&1 | grep -E "^(error|warning: unused)|^ *-->|Finished|panicked" 
