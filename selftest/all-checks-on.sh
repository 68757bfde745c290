#!/bin/bash
# run.sh NAME...  all checks on scratch
for n in "$@"; do cd /tmp/mut/$n/verif
for c in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22; do
 ./check.sh C$c quick >/tmp/mut/$n/C$c.log 2>&1; rc=$?; [ $rc = 0 ] || { echo "$n C$c rc=$rc"; head -c 700 /tmp/mut/$n/C$c.log; echo; }
done; echo "$n done"; done
