#!/bin/bash
# multi.sh HARNESS MODE FROM TO seeds... : ad-hoc parallel runs, terse output
h=$1; m=$2; f=$3; t=$4; shift 4
for s in "$@"; do ( CALI_LOG_VERBOSITY=0 CALI_LOG_LOGFILE=/tmp/l.$m$s.log ASAN_OPTIONS=detect_leaks=0 timeout 600 $h --mode $m --seed $s --from $f --to $t --out /tmp/o.$m$s.txt >/tmp/e.$m$s 2>&1; echo $m $s rc=$?; head -c 1200 /tmp/e.$m$s;  grep "VIOL\|ERROR" /tmp/o.$m$s.txt | cut -c1-${CUT:-500} | head -4 ) & done; wait
