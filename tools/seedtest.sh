#!/bin/bash
# usage: tools/seedtest.sh ID [checks...]   (scratch copy of /repo; nothing in /repo changes)
# Confirms a planted bug: builds, passes the stable tests, the demo tells the
# trees apart, and which checks report it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$here/seeded/$id
W=$(mktemp -d /tmp/seedwork.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
R=$W/repo
for f in build.sh test.sh; do sed "s#/repo#$R#g; s#bash /opt/vp/build.sh#bash $W/build.sh#; s#PYTHONPATH=/opt/vp/plugins#PYTHONPATH=/opt/vp/plugins:$R/src#" /opt/vp/$f > $W/$f; done
export PYTHONPATH=$R/src PYTHONDONTWRITEBYTECODE=1
mkdir $W/demo; cp -r $seed/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
# demos import from the copy
cd $R
rundemo() { (cd $R && timeout 300 bash $W/demo/demo.sh >$W/demo.log 2>&1); echo $?; }
bash $W/build.sh >$W/b.log 2>&1 || { echo "clean build failed"; tail -3 $W/b.log; }
d0=$(rundemo)
[ "$d0" != 0 ] && tail -5 $W/demo.log
git -C $R apply $seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $W/build.sh >$W/b.log 2>&1; b=$?
d1=$(rundemo)
tail -2 $W/demo.log
if [ -z "$NOTEST" ]; then
bash $W/test.sh $W/out.json >$W/t.log 2>&1
t=$(/opt/venv/bin/python - $W/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
p = set(json.load(open(sys.argv[1])).get('passed', []))
m = [x for x in b if x not in p]
print('ok' if not m else 'FAILS %s' % m[:4])
P
)
fi
echo "$id: clean demo=$d0 patched demo=$d1 build=$b tests=${t:-skipped}"
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
unset PYTHONPATH
for c in ${@:-$prop}; do
  VERIF_REPO=$R VERIF_SEED=${VERIF_SEED:-1} $here/check $c --tier quick > $W/c.log 2>&1; rc=$?
  echo "  check $c exit=$rc $(grep -m1 mechanism $W/c.log) $(grep -m1 -A2 mechanism $W/c.log | sed -n 2p | cut -c1-120)"
  [ $rc -ne 0 ] && [ $rc -ne 1 ] && tail -3 $W/c.log
done
