#!/bin/bash
# sweep.sh "C01 C02 ..." seed1 seed2 ... : runs checks under several seeds, prints what is not quiet
cd "$(dirname "$0")/.."
ids=$1; shift
for s in "$@"; do for k in $ids; do
  out=$(VERIF_SEED=$s python3 run.py $k ${NOFUZZ:+nofuzz} 2>&1); rc=$?
  [ $rc = 0 ] && ! grep -q VIOLATION <<<"$out" || { echo "== $k seed $s rc $rc"; head -c 1500 <<<"$out"; cp -f replays/$k.replay replays/$k-$s.replay 2>/dev/null; }
done; done
echo "sweep done: $*"
