#!/bin/bash
# development helper: build engine + harness (features $1) into /tmp
. /opt/vp/env.sh
set -e
cd /verif/symex && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/tmp/st cargo build --release --offline 2>&1 | grep -E '^error' -A8 || true
gcc -c -O1 /verif/harness/rt.c -o /tmp/rt.o
cd /verif/harness && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/tmp/ht cargo rustc --release --offline --features "$1" -- --emit=llvm-bc,link -C link-arg=/tmp/rt.o -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E '^error' -A12 || true
rm -f /tmp/h.bc; cp $(ls -t /tmp/ht/release/deps/harness-*.bc | head -1) /tmp/h.bc
