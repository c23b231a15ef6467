#!/bin/bash
# Determinism: the event-log digests of every run agree between worker counts, hash seeds and repetitions.
# usage: selftest.sh [RUNS] [CHECK...]
cd "$(dirname "$0")"
runs=${1:-200}; shift
checks=${@:-$(ls checks | sed -n 's/^c\([0-9]*\)_.*/C\1/p')}
dir=$(mktemp -d); status=0
for c in $checks; do
  for k in "a 8 0 1" "b 8 0 1" "c 3 0 1" "d 5 77 1" "e 8 0 2" "f 2 4242 2"; do
    set -- $k
    VERIF_HASHSEED=$3 VERIF_SEED=$4 VERIF_TIER=quick /opt/venv/bin/python check.py $c --runs $runs --workers $2 --dump $dir/$1 > $dir/$1.out 2>&1 || { echo "$c $k failed"; tail -3 $dir/$1.out; status=1; }
  done
  n=0
  for x in b c d; do n=$((n + $(diff $dir/a $dir/$x | grep -c '^<'))); done
  n=$((n + $(diff $dir/e $dir/f | grep -c '^<')))
  echo "$c: $n of $((runs * 4)) comparisons differ"
  [ $n = 0 ] || status=1
done
rm -rf "$dir"
exit $status
