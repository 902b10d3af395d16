#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: confirm a planted change in a scratch copy of /repo and run checks against it
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seed-XXXXXX)
D=$(mktemp -d /tmp/seeddemo-XXXXXX)
trap 'rm -rf "$W" "$D"' EXIT
cp -a "${SEED_SRC:-/repo}/." "$W/"; [ -f "$W/.git" ] && rm -f "$W/.git"
cp -a "$V/seeded/$ID/." "$D/"; rm -f "$D/patch.diff" "$D/meta.json"
(cd "$W" && bash "$D/demo.sh" >/tmp/demo.out 2>&1); echo "$ID demo unpatched rc=$?"
(cd "$W" && git apply "$V/seeded/$ID/patch.diff") || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
(cd "$W" && bash "$D/demo.sh" >/tmp/demo.out 2>&1); echo "$ID demo patched rc=$? $(tail -1 /tmp/demo.out | cut -c1-150)"
if [ -z "${NOTEST:-}" ]; then
# run the stable tests on the patched copy
sed "s#/repo/src#$W/src#" /opt/vp/jy_tests.py > "$D/jt.py"
(cd /tmp && TZ=UTC LC_ALL=C.UTF-8 timeout 120 jython -B "$D/jt.py" "$D/log" >/dev/null 2>&1)
python3 - "$D/log" <<'PY'
import sys, json
got = set(l.split()[1] for l in open(sys.argv[1]) if l.startswith("PASS "))
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
print("stable tests missing:", sorted(b - got)[:5] or "none")
PY
fi
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
for p in "$@"; do
  MC_REPO=$W python3 "$V/mc/run.py" $p --tier quick >/tmp/sc.out 2>&1; rc=$?
  echo "$ID check $p rc=$rc: $(grep -m1 VIOLATION /tmp/sc.out) :: $(grep -m1 -A1 '^-- part' /tmp/sc.out | tr '\n' ' ' | cut -c1-220)"
done
