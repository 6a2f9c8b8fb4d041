#!/bin/bash
# muttest.sh PATCH: exit 0 if the patched repository builds and passes its tests
if [ -z "$IN_NS" ]; then
  C=/tmp/muttest-$$
  cp -a /repo $C
  IN_NS=1 COPY=$C unshare -m bash "$0" "$@"; rc=$?
  rm -rf "$C"
  exit $rc
fi
mount --bind $COPY /repo || exit 3
cd /repo; git checkout -q -- .; git apply "$1" || exit 3
bash /opt/vp/build.sh > $COPY.log 2>&1 || { rm -f $COPY.log; exit 2; }
bash /opt/vp/test.sh $COPY.json > $COPY.log 2>&1
python3 - $COPY.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(sys.argv[1]))
sys.exit(1 if [t for t in b['stable'] if t not in r['passed']] else 0)
P
rc=$?; rm -f $COPY.json $COPY.log; exit $rc
