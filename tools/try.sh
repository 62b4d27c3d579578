#!/bin/bash
# try.sh HARNESS(.cpp) MODE FROM TO SEED...: compiles against the ASan flavor and runs ad hoc, several seeds at once
cd /verif; h=$1; mode=$2; from=$3; to=$4; shift 4
python3 - "$h" <<'P' || exit 1
import sys; sys.path.insert(0,'lib'); import vlib
try: print(vlib.compile_harness(sys.argv[1],'asan',internal=True))
except vlib.HarnessError as e: print(str(e)[:6000]); sys.exit(1)
P
b=$(basename $h .cpp)
D=$(mktemp -d /tmp/try.XXXX)
for s in "$@"; do ( cd $D; mkdir $s; cd $s; ASAN_OPTIONS=detect_leaks=0:exitcode=86 UBSAN_OPTIONS=print_stacktrace=1 CALI_LOG_VERBOSITY=0 CALI_LOG_LOGFILE=cali.log timeout 300 /verif/build/h/asan/$b --mode $mode --seed $s --from $from --to $to --out out.txt >o 2>&1; echo "seed $s rc=$?"; grep -h VIOL out.txt | cut -c1-1800 | head -3; grep -v "^CASE\|^FP\|VIOL" out.txt | tr '\n' ' ' | cut -c1-600; echo; head -c 1500 o ) & done; wait; rm -rf $D
