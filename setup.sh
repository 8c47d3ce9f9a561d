#!/bin/bash
# Builds the framework once (every check also builds what it needs by itself).
cd /verif && mkdir -p target evidence replay
export CARGO_NET_OFFLINE=true
(cd mc && CARGO_TARGET_DIR=/verif/target/shim cargo build --offline --release --quiet) >target/setup.log 2>&1 || { tail -40 target/setup.log; exit 1; }
