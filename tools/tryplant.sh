#!/bin/bash
# tools/tryplant.sh ID [checks...]: development aid. Applies seeded/ID/patch.diff to a scratch
# copy of /repo, builds it, runs the stable tests and the demo there (and on an
# unchanged copy), then runs the named checks against the copy.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
S=${SEEDED:-$V/seeded}/$ID
W=$(mktemp -d /tmp/plant.XXXXXX); chmod 755 "$W"; trap 'rm -rf "$W"' EXIT
export TMPDIR=$W/tmp; mkdir -p "$TMPDIR"
cp -a /repo "$W/a"; cp -a /repo "$W/b"
git -C "$W/b" apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
mkdir -p "$W/demo"; cp -a "$S/." "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
if [ -z "$NOTEST" ]; then
  sed -e "s#/repo/#$W/b/#g" -e "s#^WORK=.*#WORK=$W/work#" -e "s#^LOGS=.*#LOGS=$W/logs#" -e "s#/opt/vp/test.lock#$W/lock#" /opt/vp/test.sh > "$W/test.sh"
  sed -e "s#/repo/#$W/b/#g" /opt/vp/build.sh > "$W/build.sh"
  bash "$W/build.sh" >"$W/build.log" 2>&1 && echo "$ID: builds" || { echo "$ID: BUILD FAILS"; tail -20 "$W/build.log"; }
  bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1; [ -n "$TLOG" ] && tail -30 "$W/test.log"
  python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bad=[t for t in b['stable'] if t not in o['passed']]
print('stable tests failing:',len(bad),bad[:8])
P
  (cd "$W/a" && bash "$W/demo/demo.sh" >"$W/demo.a" 2>&1); echo "$ID: demo unchanged rc=$?"
  (cd "$W/b" && bash "$W/demo/demo.sh" >"$W/demo.b" 2>&1); rc=$?; echo "$ID: demo patched rc=$rc"; tail -${DL:-6} "$W/demo.b"
  [ $rc = 0 ] && tail -20 "$W/demo.a"
fi
for c in "$@"; do
  s=$(date +%s)
  VSIM_REPO=$W/b bash "$V/check.sh" "$c" "${TIER:-quick}" >"$W/chk" 2>&1; rc=$?
  echo "$ID: $c rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION "$W/chk")"; [ $rc -gt 1 ] && tail -5 "$W/chk"
  [ -n "$SHOW" ] && grep -A${SHOW} -m1 VIOLATION "$W/chk"
done
exit 0
