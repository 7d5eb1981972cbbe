#!/bin/bash
# development helper: all.sh "seeds" [ids...]: run checks on the current tree
cd "$(dirname "$(readlink -f "$0")")"
seeds=${1:-1}; shift
ids=${*:-$(ls rvm/props/c[0-9][0-9].py | sed 's/.*\/c\(..\).py/C\1/')}
for i in $ids; do for s in $seeds; do
  VERIF_SEED=$s ./check $i > /tmp/all.$i.$s.out 2>&1; rc=$?
  echo "rc=$rc $(grep -E "^C[0-9]+ |^INCONC|^VIOL" /tmp/all.$i.$s.out | tr '\n' ' ' | cut -c1-260)"
  [ $rc = 0 ] || grep '^  case' /tmp/all.$i.$s.out | cut -c1-900 | head -6
done; done
