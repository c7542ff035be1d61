#!/bin/bash
# usage: unfix.sh COMMIT CHECK...   runs checks with one fix commit undone in /repo's working tree
c=$1; shift
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
if ! git -C /repo show $c | git -C /repo apply -R --3way 2>/tmp/unfix.err; then
  git -C /repo reset -q --hard; cat /tmp/unfix.err; exit 2
fi
git -C /repo reset -q
for p in "$@"; do /verif/check.sh $p > /tmp/unfix.out 2>&1; echo "$c $p exit=$? $(grep -c VIOLATION /tmp/unfix.out) $(grep -m1 '^\[' /tmp/unfix.out | cut -c1-160)"; done
git -C /repo checkout -q -- . 
