#!/bin/bash
# try.sh ID [CHECK...]   applies a planted change to /repo, builds, tests, runs the demo and checks, undoes it
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
  bash $d/demo.sh; c=$?
  [ $c = 0 ] || { echo "$id: demo fails on the unchanged tree ($c)"; exit 1; }
fi
git apply $d/patch.diff || exit 1
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: does not build"; tail -20 /tmp/seed.build; exit 1; }
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x and isinstance(x[k],(list,dict)): return set(x[k])
    raise SystemExit(f"keys {list(x)}")
miss=names(b)-names(r)
print("tests failing:",sorted(miss)) if miss else None
sys.exit(bool(miss))
P
fi
if [ -z "$NODEMO" ]; then
  bash $d/demo.sh; c=$?
  [ $c != 0 ] && [ $c != 2 ] || { echo "$id: demo gives $c with the change"; exit 1; }
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for k in ${@:-$p}; do
  (cd /verif && timeout 900 ./check.sh $k quick) >/tmp/seed.$k 2>&1; c=$?
  echo "$id $k exit=$c $(grep -c "^VIOLATION property=$k " /tmp/seed.$k) $([ $c = 1 ] && grep "^$k:" /tmp/seed.$k | cut -c1-160)"
done
