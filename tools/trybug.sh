#!/bin/bash
# Applies one planted bug to /repo, checks that it counts (builds, stable tests
# pass, demo passes without and fails with it), optionally runs checks, and
# undoes it. usage: trybug.sh BUG-DIR [PROPERTY...]   (QUICK=1: only the checks)
d=$(cd "$1" && pwd); shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
ok=1
demo() { t=$(mktemp -d); cp -a "$d/." "$t/"; rm -f "$t"/*.diff "$t"/meta.json; (cd /repo && timeout 300 bash "$t/demo.sh" >/tmp/demo.out 2>&1); r=$?; rm -rf "$t"; return $r; }
if [ -z "$QUICK" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  demo || { echo "BAD: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; ok=0; }
fi
git apply "$d/patch.diff" || exit 2
if [ -z "$QUICK" ]; then
  bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "BAD: build"; tail -5 /tmp/build.out; exit 1; }
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  python3 - <<'P' || ok=0
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(x):
    for k in ('stable','passed','stable_passed','pass'):
        if k in x: return set(x[k])
    raise SystemExit('keys %s'%list(x))
m=passed(b)-passed(t)
if m: print('BAD: tests fail:',sorted(m)[:5]); raise SystemExit(1)
P
  demo && { echo "BAD: demo passes with the bug"; ok=0; }
fi
echo "counts=$ok $(basename $d)"
for p in "$@"; do
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash ./check.sh $p quick 2>&1); r=$?
  echo "  check $p exit=$r $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
