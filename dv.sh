#!/bin/bash
# development build (not used by the checks)
cd /verif/sim && CARGO_TARGET_DIR=/tmp/dvt cargo build --release --offline --features serial --bin dvesim-builds 2>&1 | grep -E "^error" -A12 | head -80
