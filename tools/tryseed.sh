#!/bin/bash
# tryseed.sh NAME [PROPERTY...]: tries seeded/NAME in a scratch copy of /repo:
# patch applies, builds, passes the tests, demo is quiet without and loud with it, and which checks see it.
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedrepo
N=$1; shift
D=$V/seeded/$N
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
if [ ! -d $S ]; then
  cp -a /repo $S; rm -rf $S/_build
  for f in build test; do sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/seed-build.sh#g" /opt/vp/$f.sh > /tmp/seed-$f.sh; done
fi
H=$(git -C /repo rev-parse HEAD)
if [ "$(git -C $S rev-parse HEAD)" != "$H" ]; then git -C $S fetch -q /repo && git -C $S reset -q --hard "$H"; fi
git -C $S checkout -q -- . 
bash /tmp/seed-build.sh > /tmp/seed.log 2>&1 || { echo "clean build fails"; exit 1; }
cp -r $D /tmp/seed-demo.$$
(cd $S && timeout 300 bash /tmp/seed-demo.$$/demo.sh > /tmp/seed.clean 2>&1); C=$?
git -C $S apply $D/patch.diff || { echo "does not apply"; rm -rf /tmp/seed-demo.$$; exit 1; }
bash /tmp/seed-test.sh /tmp/seed.json > /tmp/seed.log 2>&1
T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.json'))
b=b['stable']
print('tests', 'ok' if set(b)<=set(t['passed']) else 'FAIL')")
(cd $S && timeout 300 bash /tmp/seed-demo.$$/demo.sh > /tmp/seed.patched 2>&1); X=$?
rm -rf /tmp/seed-demo.$$
echo "$N: $T, demo clean=$C patched=$X"; tail -2 /tmp/seed.patched | cut -c1-300
for p in $P; do
  DST_REPO=$S DST_BUILD=/tmp/bseed DST_EVIDENCE=/tmp/seed-ev python3 $V/dst/check.py run $p > /tmp/seed-$p.out 2>&1
  echo "  $p: exit $? $(grep -a VIOLATION /tmp/seed-$p.out | cut -c1-300)"
done
git -C $S checkout -q -- .
