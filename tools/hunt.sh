#!/bin/bash
# hunt.sh SEED_ID CHECKS...: run quick checks (from a scratch copy of the harness) against a scratch copy of /repo with a planted bug
id=$1; shift
W=/tmp/bugrepo; H=/tmp/hb
[ -d $W ] || { cp -a /repo $W; rm -rf /tmp/bugrepo/target; }
git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
[ "$id" = none ] || git -C $W apply /verif/seeded/$id/patch.diff || exit 3
mkdir -p $H; rsync -a --delete --exclude target /verif/harness/ $H/
grep -rl '"/repo' $H --include=Cargo.toml | xargs sed -i 's#"/repo#"/tmp/bugrepo#'
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/tmp/hbt CARGO_INCREMENTAL=0
cd $H && cargo build --offline -q 2>&1 | grep -E '^error' -A5 | head
case " $* " in *" C22 "*)
  cp /verif/tools/workers.sh /tmp/hunt_workers.sh
  export PROBE_WORKERS=$(bash /tmp/hunt_workers.sh $H /tmp/hbt);;
esac
for c in "$@"; do
  case $c in C04) b=elem;; C13|C18|C19) b=data;; C16|C17|C23) b=wrap;; C20) b=macros;; C22) b=probe;; *) b=ast;; esac
  out=$(timeout 800 /tmp/hbt/debug/$b $c --tier quick --seed ${VERIF_SEED:-1} --evidence /tmp/hb_ev.json --replay-dir /tmp/hb_replay 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
done
