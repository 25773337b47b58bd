#!/bin/bash
# usage: determinism.sh N PROP...   The first N runs of each property, in another order and with another hash seed: same event logs.
N=$1; shift
D=$(mktemp -d /tmp/vdet.XXXXXX)
HERE="$(cd "$(dirname "$0")/.." && pwd)"
for P in "$@"; do
  ( PYTHONHASHSEED=0 VERIF_NOBUILD=1 "$HERE/run.sh" $P quick --runs $N --hashes $D/$P.a
    PYTHONHASHSEED=7 VERIF_NOBUILD=1 "$HERE/run.sh" $P quick --runs $N --reverse --hashes $D/$P.b
    if cmp -s $D/$P.a $D/$P.b; then echo "$P same ($(wc -l < $D/$P.a))"; else echo "$P DIFFERENT"; diff $D/$P.a $D/$P.b | head -4; fi ) &
  while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 1; done
done
wait
rm -rf "$D"
