#!/bin/bash
# tools/allquick.sh [IDS…]: run quick checks one after another, print a line each
cd /verif
for p in ${@:-$(ls props | sed -n 's/^\(c[0-9][0-9]\)\.py$/\U\1/p')}; do
  t=$SECONDS; timeout 900 /opt/venv/bin/python check.py $p quick >/tmp/aq.$p 2>&1; rc=$?
  echo "$p rc=$rc $((SECONDS-t))s $(tail -1 /tmp/aq.$p | cut -c1-150)"
done
