#!/bin/bash
# check.sh PROPERTY : rebuilds the simulator from /repo's working tree and runs
# the property's seeded search. Exit 0 quiet, 1 violation, 2 error.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
OUT=$HERE/bin/$ID
BUILD=plain; [ "$ID" = X04 ] && BUILD=instrumented
"$HERE/build.sh" "$OUT" $BUILD || { echo "build failed"; exit 2; }
if [ "$TIER" = thorough ]; then BUDGET=${VERIF_BUDGET:-600}; else BUDGET=${VERIF_BUDGET:-240}; fi
exec "$OUT/sim" check -prop "$ID" -tier "$TIER" -seed "$SEED" -dir "$HERE" -budget "$BUDGET" -workers "${VERIF_WORKERS:-8}"
