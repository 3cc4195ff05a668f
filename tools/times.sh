#!/bin/bash
# groups of a check by cost
cd "$(dirname "$0")/.."
./check $1 -v 2>&1 | grep "^group" | sed -E 's/^group ([0-9]+) (\{.*\}): ([0-9.]+) s, ([0-9]+) cases.*/\3 s  \4 cases  #\1 \2/' | sort -rn | cut -c1-180
