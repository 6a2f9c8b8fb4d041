#!/bin/bash
# seed.sh ID [check...]: confirms a planted bug in a private copy of /repo (bind-mounted over
# /repo in a mount namespace of its own) and runs the given checks (default: its property's).
ID=$1; shift
D=/verif/seeded/$ID
if [ -z "$IN_NS" ]; then
  C=/tmp/seedcopy-$ID-$$
  cp -a ${SRC:-/repo} $C && mkdir -p $C.ev
  IN_NS=1 COPY=$C unshare -m bash "$0" "$ID" "$@"; rc=$?
  rm -rf "$C" "$C.ev"
  exit $rc
fi
mount --bind $COPY /repo || exit 3
export VERIF_EVIDENCE=$COPY.ev
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh > $COPY.log 2>&1 || { echo "$ID: clean build failed"; tail -5 $COPY.log; exit 3; }
bash $D/demo.sh > $COPY.log 2>&1 || { echo "$ID: DEMO FAILS ON CLEAN TREE"; tail -5 $COPY.log; exit 3; }
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 3; }
bash /opt/vp/build.sh > $COPY.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $COPY.log; exit 3; }
bash /opt/vp/test.sh $COPY.json > $COPY.log 2>&1
python3 - $COPY.json <<'P' || { echo "$ID: TESTS BREAK"; exit 3; }
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(sys.argv[1]))
want = b['stable']
miss = [t for t in want if t not in r['passed']]
if miss: print('missing', miss[:5]); sys.exit(1)
P
( cd /repo; timeout 300 bash $D/demo.sh > $COPY.log 2>&1 ) && { echo "$ID: DEMO PASSES WITH THE BUG"; exit 3; }
rm -f $COPY.log $COPY.json
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for p in "$@"; do
  timeout 900 python3 /verif/bin/check.py $p quick > $COPY.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" $COPY.log; then echo "$ID: caught by $p ($(grep -m1 -e '^---' $COPY.log | cut -c1-150))"; else echo "$ID: MISSED by $p (rc $rc)"; tail -2 $COPY.log; fi
  rm -f $COPY.log
done
