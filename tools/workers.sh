#!/bin/bash
# workers.sh HARNESS TARGETBASE: build the other configurations of probe, print PROBE_WORKERS (for use by hand and hunt.sh)
cd $1; t=$2
w() { CARGO_TARGET_DIR=$t/cfg-$1 cargo build --offline -q -p probe --no-default-features ${2:+--features $2} >/dev/null 2>&1 || echo "FAILED $1" >&2; }
w none "" & w alloc alloc & w log log & w std-log std,log & w std-tracing std,tracing & wait
o=
for w in none:0 alloc:1 log:0 std-log:2 std-tracing:2; do o+="${o:+,}$w=$t/cfg-${w%:*}/debug/probe"; done
echo $o
