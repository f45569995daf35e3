#!/bin/bash
# usage: check.sh <property> quick|thorough   builds the check from /repo's working tree and runs it
# exit 0: held on everything explored; 1 with a VIOLATION line: broken; anything else: error of the check
id=$1 tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/harness/target" CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac
case $id in
  C04) bin=elem;;
  C13|C18|C19) bin=data;;
  C16|C17|C23) bin=wrap;;
  C20) bin=macros;;
  C22) bin=probe;;
  *) bin=ast;;
esac
rm -f "$here/evidence/$id.json"
cargo build --offline --locked -q -p $bin >"$CARGO_TARGET_DIR.$id.log" 2>&1 || {
  tail -40 "$CARGO_TARGET_DIR.$id.log" >&2; echo "check.sh: build failed" >&2; exit 2; }
rm -f "$CARGO_TARGET_DIR.$id.log"
if [ "$id" = C22 ]; then
  # the other build configurations; the default build drives them
  cfg() {
    CARGO_TARGET_DIR="$here/harness/target/cfg-$1" cargo build --offline --locked -q -p probe --no-default-features \
      ${2:+--features "$2"} >"$here/harness/target.$id.$1.log" 2>&1 && rm -f "$here/harness/target.$id.$1.log"
  }
  cfg none "" & cfg alloc alloc & cfg log log & cfg std-log std,log & cfg std-tracing std,tracing & wait
  PROBE_WORKERS=
  for w in none:0 alloc:1 log:0 std-log:2 std-tracing:2; do
    [ -e "$here/harness/target.$id.${w%:*}.log" ] && {
      tail -40 "$here/harness/target.$id.${w%:*}.log" >&2; echo "check.sh: build of ${w%:*} failed" >&2; exit 2; }
    PROBE_WORKERS+="${PROBE_WORKERS:+,}$w=$CARGO_TARGET_DIR/cfg-${w%:*}/debug/probe"
  done
  export PROBE_WORKERS
fi
lim=840; [ "$tier" = thorough ] && lim=7200
ulimit -v 25165824
timeout $lim "$CARGO_TARGET_DIR/debug/$bin" "$id" --tier "$tier" --seed "$seed" \
  --evidence "$here/evidence/$id.json" --replay-dir "$here/evidence/replays"
rc=$?
[ $rc -gt 1 ] && { echo "check.sh: $bin ended with $rc" >&2; exit 2; }
exit $rc
