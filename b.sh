#!/bin/bash
cd /verif/sim && CARGO_NET_OFFLINE=true cargo build --release --offline --target-dir /verif/target 2>&1 | grep -A15 "^error" | head -${LINES_MAX:-80}
[ $# -gt 0 ] && exec timeout 1800 /verif/target/release/simcheck "$@"
