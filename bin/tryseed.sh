#!/bin/bash
# tryseed.sh ID [notest] [nocheck]: apply a planted bug to /repo, run the
# stable tests, its demo and its property's check, and undo it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash "$d/demo.sh" > /tmp/demo0.log 2>&1; echo "$1 demo clean: $? (want 0)"
git apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash "$d/demo.sh" > /tmp/demo1.log 2>&1; echo "$1 demo patched: $? (want nonzero)"
case " $* " in *" notest "*) ;; *)
  bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
  python3 - <<'P'
import json
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/seedtest.json'))
ok=set(r.get('passed',r.get('pass',[])))
print('tests missing:', sorted(base-ok))
P
esac
case " $* " in *" nocheck "*) ;; *)
  (cd /verif && VERIF_TIER=quick VERIF_SEED=${SEED:-1} python3 bin/check.py $prop | cut -c1-200 | grep -v '^  '; echo "check exit ${PIPESTATUS[0]}")
esac
