#!/bin/bash
# margins.sh PERCENT SEED...: how many of the planted changes are caught with PERCENT % of the cases, per seed
cd /verif || exit 2
P=$1; shift
ids=$(ls seeded)
for s in "$@"; do
  LAWMON_PERCENT=$P VERIF_SEED=$s W=4 bash tools/try_scratch.sh $ids | sed "s/^/$P%\t$s\t/"
done
