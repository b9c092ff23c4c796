#!/bin/bash
# determinism.sh [CASES] [SEED]: every case twice, in processes with different histories (8 and 7 workers);
# counts the cases whose steps, schedule, I/O operations or allocations differ.
here="$(cd "$(dirname "$0")/.." && pwd)"; n="${1:-5000}"; seed="${2:-3}"
bash "$here/build.sh" || exit 2
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT; bad=0
for p in $(seq -f 'C%02.0f' 1 16); do
  for k in 8 7; do
    SIM_ALL=1 SIM_TRACE=1 "$here/target/debug/simdriver" search $p $seed $n 600 $k 2>&1 | grep '^run ' | sort -k2n > "$w/$k"
  done
  d=$(diff "$w/8" "$w/7" | grep -c '^<'); echo "$p: $(wc -l < "$w/8") cases, $d differ"; [ "$d" = 0 ] || bad=1
done
exit $bad
