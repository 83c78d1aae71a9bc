#!/bin/bash
# Determinism of the simulator: the same seeds give the same event logs, whether
# they run in one process in order or scattered over several, and under
# different GOMAXPROCS and garbage collection settings.
# Usage: tools/selftest.sh [RUNS] [PROP…]
HERE=$(cd "$(dirname "$0")/.." && pwd)
N=${1:-300}; shift
OUT=$(mktemp -d /tmp/selftest.XXXXXX)
trap 'rm -rf "$OUT"' EXIT
"$HERE/build.sh" "$OUT" || exit 2
PROPS=${*:-$("$OUT/sim" list | cut -d' ' -f1 | sort -u)}
bad=0
for p in $PROPS; do
  "$OUT/sim" digest -prop "$p" -runs "$N" > "$OUT/a" 2>/dev/null &
  for k in 0 1 2; do
    GOMAXPROCS=$((k*2+1)) GOGC=$((20+k*200)) "$OUT/sim" digest -prop "$p" -runs "$N" -shard $k -shards 3 2>/dev/null > "$OUT/b$k" &
  done
  wait
  sort -n "$OUT"/b0 "$OUT"/b1 "$OUT"/b2 > "$OUT/b"
  sort -n "$OUT/a" -o "$OUT/a"
  if cmp -s "$OUT/a" "$OUT/b" && [ "$(wc -l < "$OUT/a")" -ge "$N" ]; then echo "$p same ($N runs)"; else echo "$p DIFFERS"; diff "$OUT/a" "$OUT/b" | head -4; bad=1; fi
done
exit $bad
