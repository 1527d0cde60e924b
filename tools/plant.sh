#!/bin/bash
# plant.sh ID   -- /repo holds the edit uncommitted, /verif/seeded/ID/ holds demo.sh and meta.json
# Saves the edit as patch.diff, confirms that it compiles, passes the stable tests and fails its
# demonstration, undoes it, confirms the demonstration on the clean tree, then runs the check.
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 1
git diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no edit in /repo"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/plant.json'))
def passed(d):
    for k in ('passed','stable'):
        if k in d:
            v=d[k]
            return set(v if isinstance(v,list) else [t for t,s in v.items() if s in ('passed',True,'pass')])
missing=passed(base)-passed(got)
print('TESTS', 'ok' if not missing else 'BROKEN %s' % sorted(missing)[:5])
P
cp -r "$D" /tmp/plantdemo.$$; rm -f /tmp/plantdemo.$$/patch.diff /tmp/plantdemo.$$/meta.json
timeout 300 bash /tmp/plantdemo.$$/demo.sh >/tmp/plant.demo 2>&1; echo "DEMO patched: $? (want nonzero)"; tail -2 /tmp/plant.demo
cd /verif
for seed in ${SEEDS:-1}; do
  timeout 900 env VERIF_SEED=$seed VERIF_TIER=quick python3 check.py $P > /tmp/plant.check 2>&1; echo "CHECK $P seed $seed: $?"; grep VIOLATION /tmp/plant.check | head -3
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
cd /repo; timeout 300 bash /tmp/plantdemo.$$/demo.sh >/tmp/plant.demo 2>&1; echo "DEMO clean: $? (want 0)"; tail -2 /tmp/plant.demo
rm -rf "/tmp/plantdemo.$$"
