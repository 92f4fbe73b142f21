#!/bin/bash
# tryseed.sh ID... : build, test and check each planted bug in a private copy of /repo (bind mounted in its own namespace)
[ -n "$IN_NS" ] || { rm -rf /tmp/rc; cp -a /repo /tmp/rc; IN_NS=1 exec unshare -Urm bash "$0" "$@"; }
mount --bind /tmp/rc /repo || exit 3
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/ts.demo0 2>&1); d0=$?
  git apply $d/patch.diff || { echo "$id APPLY-FAILED"; continue; }
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
    miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
s=set(b.get('stable',b.get('passed',b))) if isinstance(b,dict) else set(b)
print(len(s-set(r['passed'])), sorted(s-set(r['passed']))[:3])")
  fi
  (cd /repo && bash $d/demo.sh >/tmp/ts.demo1 2>&1); d1=$?
  (cd /verif && IRVC_NOEV=1 timeout 890 python3-vt irvc/check.py $prop quick > /tmp/ts.check.$id 2>&1); rc=$?
  echo "$id $prop demo-clean=$d0 demo-patched=$d1 tests-missing=$miss check-rc=$rc $(grep '^VIOLATION' /tmp/ts.check.$id)"
  git checkout -q -- .
done
