#!/bin/bash
# Builds the harness once (the checks rebuild it from /repo's current tree).
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys; sys.path.insert(0, 'tools')
import vf; vf.start("setup"); vf.harness(); vf.harness("prod-full-debug"); vf.harness("prod-std-release"); vf.harness("prod-min-debug"); vf.http_server(); vf.wasm_harness()
P
