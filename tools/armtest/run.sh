#!/bin/sh
# Compares the A64 interpreter with this host on the functions of t.c (not part of any check).
set -e
d=$(cd "$(dirname "$0")" && pwd)
cd "$d/../../mon"
MON_ARM_SOURCE="$d/t.c" cargo +1.81.0 build --release --offline --features armtest --target-dir "$d/../../target/armtest" 2>&1 | grep -E "^error" -A9 || true
"$d/../../target/armtest/release/mon" ARMTEST
