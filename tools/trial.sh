#!/bin/bash
# trial.sh SLOT PATCH OUT [check ids...]: in a private mount namespace, over scratch copies of /repo and /verif,
# apply PATCH, build, run the stable tests, the demo beside PATCH (if any) and the checks.  Results go to OUT.
# Used to try planted bugs; no check uses it.
slot=/tmp/trial/$1; patch=$(realpath "$2"); out=$(realpath -m "$3"); shift 3
mkdir -p "$slot"
rsync -a --delete --exclude .git/gc.pid "${RSRC:-/repo}/" "$slot/repo/" 
rsync -a --delete --exclude .work --exclude evidence --exclude .git "${VSRC:-/verif}/" "$slot/verif/"
export patch out
unshare -m bash -s "$slot" "$@" <<'I'
slot=$1; shift
mount --make-rprivate /
mount --bind "$slot/repo" /repo && mount --bind "$slot/verif" /verif || exit 9
cd /repo && git checkout -q -- . && git apply "$patch" || { echo "APPLY-FAIL" > "$out"; exit 1; }
: > "$out"
if [ -z "$ONE_TRY" ] && ! bash /opt/vp/build.sh > "$slot/build.log" 2>&1; then echo BUILD-FAIL >> "$out"; exit 0; fi
ok=0
for try in 1 2; do
  timeout 400 bash /opt/vp/test.sh "$slot/t.json" > "$slot/test.log" 2>&1
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$slot/t.json'))
print(' '.join(sorted(set(b['stable'])-set(o['passed']))))" 2>/dev/null || echo error)
  [ -z "$m" ] && { ok=1; break; }
  [ -n "$ONE_TRY" ] && break
done
if [ $ok = 0 ]; then echo "TESTS-FAIL $m" >> "$out"; exit 0; fi
echo TESTS-PASS >> "$out"
d=$(dirname "$patch")/demo.sh
if [ -f "$d" ]; then
  timeout 300 bash "$d" > "$slot/demo.log" 2>&1; echo "DEMO-PATCHED $?" >> "$out"
fi
for c in "$@"; do
  t=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/tools/check.py $c > "$slot/check_$c.log" 2>&1; r=$?
  echo "CHECK $c rc=$r $(($(date +%s)-t))s $(grep -m1 '^VIOLATION' "$slot/check_$c.log" | cut -c1-60)" >> "$out"
  [ $r = 1 ] && [ -n "$STOP_FIRST" ] && break
  [ $r != 0 ] && cp "$slot/check_$c.log" "$out.$c.log"
done
if [ -f "$d" ]; then
  git checkout -q -- . ; bash /opt/vp/build.sh > "$slot/build.log" 2>&1
  timeout 300 bash "$d" > "$slot/demo.log" 2>&1; echo "DEMO-CLEAN $?" >> "$out"
fi
exit 0
I
