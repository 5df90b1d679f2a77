#!/bin/bash
# seed.sh <id> [demo|test|check|all] [check ids...]: try a planted bug in a copy of /repo laid over /repo in a private mount namespace
ID=$1; MODE=${2:-all}; shift 2
S=/verif/seeded/$ID; C=/tmp/seedwt  # one persistent built copy
[ -d $C ] || cp -a /repo $C
git -C $C checkout -q -- . && git -C $C apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH=${*:-$PROP}
unshare -Urm bash -c "
mount --bind $C /repo || exit 3
cd /repo
if [ $MODE = all -o $MODE = test -o $MODE = demo ]; then
  bash /opt/vp/build.sh > /tmp/seed_$ID.build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seed_$ID.build.log; exit 4; }
  rm -rf /tmp/seedd_$ID; cp -r $S /tmp/seedd_$ID; rm -f /tmp/seedd_$ID/*.diff /tmp/seedd_$ID/meta.json
  bash /tmp/seedd_$ID/demo.sh > /tmp/seed_$ID.demo.log 2>&1; echo \"demo with bug: \$? (want nonzero)\"; tail -2 /tmp/seed_$ID.demo.log
fi
if [ $MODE = all -o $MODE = test ]; then
  bash /opt/vp/test.sh /tmp/seed_$ID.out.json > /tmp/seed_$ID.test.log 2>&1
  python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_$ID.out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
st=set(x if isinstance(x,str) else x.get('name') for x in st)
print('stable tests not passing:', sorted(st-set(r['passed']))[:5], len(st))
PY
fi
if [ $MODE = all -o $MODE = check ]; then
  cd /verif
  for p in $CH; do NPV_BUILD=/tmp/seed_$ID.vb python3-vt engine/check.py \$p > /tmp/seed_$ID.\$p.log 2>&1; echo \"check \$p: rc=\$?\"; tail -3 /tmp/seed_$ID.\$p.log | cut -c1-300; done
fi
"
rm -rf /tmp/seed_$ID.vb /tmp/seedd_$ID
