#!/bin/bash
# try_bug.sh ID [PROP...]: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a
# namespace of its own) and run the named checks (default: the bug's own property) against it.
# SEED, TIER may be set.  SKIP_CONFIRM=1 only runs the checks.
set -u
ID=$1; shift
W=${WORK:-/tmp/plant.$ID}
if [ -z "${INNER:-}" ]; then
  mkdir -p "$W" && cp -a /repo "$W/repo" && mkdir "$W/verif" && cp -a /verif/. "$W/verif/" && cp -a "/verif/seeded/$ID" "$W/bug"
  INNER=1 WORK=$W unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && exec bash /verif/tools/try_bug.sh $ID $*"
  rc=$?
  rm -rf "$W"
  exit $rc
fi
cd /repo; git checkout -q -- .; git clean -fdq
B=$W/bug
PROP=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
git apply "$B/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 3; }
if [ -z "${SKIP_CONFIRM:-}" ]; then
  bash /opt/vp/build.sh > "$W/b.log" 2>&1 || { tail -5 "$W/b.log"; echo "$ID: BUILD FAILS"; exit 3; }
  bash /opt/vp/test.sh "$W/t.json" > "$W/t.log" 2>&1
  python3 - "$W/t.json" <<'P' || exit 3
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
base=b['stable']
miss=[x for x in base if x not in t['passed']]
print('tests passed', len(t['passed']), 'missing', miss)
sys.exit(1 if miss else 0)
P
  timeout 300 bash "$B/demo.sh" > "$W/d.log" 2>&1; rc=$?; tail -3 "$W/d.log"
  [ $rc -ne 0 ] || { echo "$ID: DEMO PASSES WITH THE PATCH"; exit 3; }
  git apply -R "$B/patch.diff"; bash /opt/vp/build.sh > "$W/b.log" 2>&1
  timeout 300 bash "$B/demo.sh" > "$W/d.log" 2>&1; rc=$?; tail -2 "$W/d.log"
  [ $rc -eq 0 ] || { echo "$ID: DEMO FAILS WITHOUT THE PATCH"; exit 3; }
  git apply "$B/patch.diff"
  echo "$ID: confirmed ($PROP)"
fi
cd /verif
[ "${1:-}" = none ] && exit 0
for p in ${*:-$PROP}; do
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 python3 bin/check.py $p > "$W/c.log" 2>&1; rc=$?
  grep -h "VIOLATION" "$W/c.log" | head -3
  echo "$ID: check $p rc=$rc $(( $(date +%s) - s ))s $([ $rc = 1 ] && grep -q "VIOLATION property=$p" "$W/c.log" && echo CAUGHT || echo missed)"
  [ $rc = 1 ] && for r in $(grep -ho 'replay=[^ ]*' "$W/c.log" | head -1 | cut -d= -f2); do head -c 600 $r; echo; done
done
