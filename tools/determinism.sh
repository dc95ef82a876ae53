#!/bin/bash
# Digests of COUNT runs per property, once in one process and once spread over eight
# processes in another order: every line must agree.
N=${1:-400}; SEED=${2:-1}; SIM=${SIM:-/verif/sim/target/release/sim}
D=$(mktemp -d); bad=0
for id in $($SIM list); do
  $SIM digests $id $SEED 0 $N > $D/one
  S=$(( (N + 7) / 8 ))
  for k in 7 6 5 4 3 2 1 0; do
    F=$((k * S)); C=$S; [ $((F + C)) -gt $N ] && C=$((N - F))
    $SIM digests $id $SEED $F $C > $D/p$k &
  done; wait
  cat $D/p0 $D/p1 $D/p2 $D/p3 $D/p4 $D/p5 $D/p6 $D/p7 > $D/two
  if cmp -s $D/one $D/two; then echo "$id $(wc -l < $D/one) runs equal"; else echo "$id DIFFERS"; bad=1; fi
done
rm -r "$D"
exit $bad
