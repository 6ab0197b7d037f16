#!/bin/bash
# plant.sh ID: /verif/seeded/ID/{demo.sh,meta.json} exist; the change is in the scratch copy /tmp/wt (cp -a /repo, edited).
# Confirms it compiles, passes the stable tests, and that the demo tells the two apart; writes patch.diff.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/wt
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
mk() { (cd $W && make -f /opt/vp/rayforce.mk -j8 CC=/usr/bin/clang PWD=$W $1 >/tmp/wt.log 2>&1); }
if [ "${2:-}" = redo ]; then git -C $W checkout -q -- . && git -C $W apply $D/patch.diff || exit 2; fi
git -C $W diff > /tmp/wt.patch
[ -s /tmp/wt.patch ] || { echo "no change in $W"; exit 2; }
git -C $W checkout -q -- .
[ "$(git -C $W rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { git -C $W fetch -q /repo && git -C $W reset -q --hard FETCH_HEAD; }
mk vp-build || { tail -5 /tmp/wt.log; exit 2; }
(cd $W && timeout 300 bash $D/demo.sh >/tmp/demo0.out 2>&1); c=$?
git -C $W apply --check /tmp/wt.patch || exit 2
git -C $W apply /tmp/wt.patch
mk vp-build || { grep -A4 error /tmp/wt.log; git -C $W checkout -q -- .; exit 2; }
(cd $W && timeout 300 bash $D/demo.sh >/tmp/demo1.out 2>&1); p=$?
mkdir -p /tmp/mut; (cd $W && : > /tmp/wt.res && flock /tmp/mut/lock timeout 300 ./_build/rayforce.vptest /tmp/wt.res </dev/null >/tmp/wt.tests 2>&1)
python3 - <<'P'
import json,re
base=json.load(open('/opt/vp/BASELINE.json'))
names=set(base.get('stable') or base.get('passing') or base.get('tests') or [])
r={}
for l in open('/tmp/wt.res'):
    p=l.split()
    if len(p)>=2: r[p[-1] if p[0].lower() in('pass','fail','ok','passed','failed') else p[0]]=l.strip()
bad=[l for l in r.values() if 'fail' in l.lower()]
print('tests: %d lines, failing: %s'%(len(r),bad[:5]))
import sys; sys.exit(1 if bad or len(r)<185 else 0)
P
t=$?
git -C $W checkout -q -- .
echo "demo clean=$c patched=$p"
if [ $t = 0 ] && [ $c = 0 ] && [ $p != 0 ]; then cp /tmp/wt.patch $D/patch.diff; echo "kept $D"; else tail -n 5 /tmp/demo0.out; tail -n 5 /tmp/demo1.out; exit 1; fi
