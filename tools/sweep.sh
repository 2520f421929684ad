#!/bin/bash
# tools/sweep.sh "seeds" [checks...]: run checks at several seeds, print the ones that are not OK
cd "$(dirname "$0")/.." || exit 2
seeds=$1; shift
cs=${*:-$(ls checks/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/')}
for s in $seeds; do for c in $cs; do
  o=$(./check "$c" --seed "$s" ${SWEEP_ARGS:-} 2>&1 | tail -c 2500)
  case "$o" in *"OK property"*) ;; *) echo "=== $c seed $s"; echo "$o";; esac
done; done
echo sweep done
