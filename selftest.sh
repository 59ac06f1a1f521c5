#!/bin/bash
# selftest.sh [N] [BASE]: is one seed one execution? Digests of the same runs, taken in different
# processes, in different company (stride), and one by one, must agree line by line.
cd "$(dirname "$0")" || exit 2
bash build.sh >/dev/null 2>&1 || exit 2
B=${CARGO_TARGET_DIR:-$PWD/sim/target}/x86_64-unknown-linux-gnu/release/crabsim
N=${1:-2000} S=${2:-1} d=$(mktemp -d) bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16; do
    $B digest $p $S 0 $N | grep -v digest >"$d/a" &
    $B digest $p $S 0 $N | grep -v digest >"$d/b" &
    $B digest $p $S 3 $((N - 3)) 7 | grep -v digest >"$d/c" &
    (for i in $(seq 5 53 $N | head -40); do $B digest $p $S $i 1 | grep -v digest; done) >"$d/d" &
    wait
    cmp -s "$d/a" "$d/b" || { echo "$p: two processes disagree: $(diff "$d/a" "$d/b" | head -3)"; bad=1; }
    [ -z "$(grep -vxF -f "$d/a" "$d/c")" ] || { echo "$p: depends on the runs before it: $(grep -vxF -f "$d/a" "$d/c" | head -2)"; bad=1; }
    [ -z "$(grep -vxF -f "$d/a" "$d/d")" ] || { echo "$p: a fresh process disagrees: $(grep -vxF -f "$d/a" "$d/d" | head -2)"; bad=1; }
    echo "$p: $(wc -l <"$d/a") runs, $(wc -l <"$d/c") in other company, $(wc -l <"$d/d") alone"
done
rm -r "$d"
exit $bad
