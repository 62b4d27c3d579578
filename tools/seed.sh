#!/bin/bash
# seed.sh ID [CHECK...]: validates a planted bug (applies, builds, tests pass, demo fails) and runs the given checks (default: its property's)
# against it. Works in /repo itself and always restores it.
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH="$*"; [ -z "$CH" ] && CH=$P
cd /repo; [ -n "$(git status --porcelain -uno)" ] && { echo "/repo dirty"; exit 2; }
demo() { D=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json; (cd /repo; timeout 300 bash $D/demo.sh >$D/log 2>&1; r=$?; tail -3 $D/log; exit $r); r=$?; rm -rf $D; return $r; }
trap 'cd /repo; git checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; demo; echo "demo unchanged: $?"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { tail -5 /tmp/seed.build; echo BUILD FAILS; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/seed.json'))['passed']); print('missing tests:', sorted(b-t)[:5], len(b-t))"
demo; echo "demo patched: $?"
fi
for c in $CH; do (cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $c 2>&1 | grep -v KNOWN | cut -c1-400 | head -${LINES_MAX:-6}; echo "check $c rc=${PIPESTATUS[0]}"); done
