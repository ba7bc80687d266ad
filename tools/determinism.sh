#!/bin/bash
# Every property: the first N runs twice, with different worker counts; the event-log digests must be equal.
cd "$(dirname "$0")/.." || exit 2
n=${1:-60} d=$(mktemp -d) bad=0
for p in ${2:-$(seq -f 'S%02g' 1 20) S24}; do
    for w in 2 7; do ./check.py $p --runs $n --workers $w --digest $d/$p.$w >/dev/null 2>&1 || { echo "$p: check failed"; bad=1; }; done
    if cmp -s $d/$p.2 $d/$p.7; then echo "$p: $n runs, identical"; else echo "$p: DIFFERENT"; bad=1; diff $d/$p.2 $d/$p.7 | head -4; fi
done
rm -rf "$d"
exit $bad
