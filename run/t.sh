#!/bin/bash
# dev helper: run several checks, short output
for p in "$@"; do
  python3 $(dirname $0)/check.py $p ${TIER:-quick} > /tmp/t.out 2>&1
  echo "== $p rc=$?"; grep -v '^$' /tmp/t.out | tail -${LINES_:-5} | cut -c1-700
done
