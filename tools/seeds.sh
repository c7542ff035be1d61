#!/bin/bash
# usage: seeds.sh FROM TO CHECK...   runs checks with several seeds, prints what is not a clean pass
a=$1; b=$2; shift 2
for p in "$@"; do for s in $(seq $a $b); do VERIF_SEED=$s /verif/check.sh $p > /tmp/seeds.$$ 2>&1 || { echo "== $p seed $s"; head -c 1500 /tmp/seeds.$$; }; done; done; rm -f /tmp/seeds.$$
