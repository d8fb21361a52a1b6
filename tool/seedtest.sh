#!/bin/bash
# Validates one planted change on /repo: seedtest.sh ID [--nobuild]. Restores /repo afterwards.
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git checkout -q -- . || exit 9
git apply $D/patch.diff || { echo "$1: patch does not apply"; exit 9; }
( cd /verif && python3 check.py $P quick > /tmp/w/seed.$1.check 2>&1; echo "$1: check $P exit $?"; grep -v '^KNOWN\|^note' /tmp/w/seed.$1.check | cut -c1-300 | head -6 )
if [ "$2" != "--nobuild" ]; then
  bash /opt/vp/test.sh /tmp/w/seed.$1.json > /tmp/w/seed.$1.test 2>&1
  python3 - $1 <<'E'
import json,sys
r=json.load(open('/tmp/w/seed.%s.json'%sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
ok=set(r['passed']); base=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
print(sys.argv[1]+': baseline tests failing:', [t for t in base if t not in ok][:5])
E
  ( timeout 300 bash $D/demo.sh > /tmp/w/seed.$1.demo 2>&1; echo "$1: demo with patch exit $?"; tail -2 /tmp/w/seed.$1.demo )
fi
git checkout -q -- .
if [ "$2" != "--nobuild" ]; then
  bash /opt/vp/build.sh > /dev/null 2>&1
  ( timeout 300 bash $D/demo.sh > /tmp/w/seed.$1.demo0 2>&1; echo "$1: demo unpatched exit $?"; tail -2 /tmp/w/seed.$1.demo0 )
fi
