#!/bin/bash
# tools/seedcheck.sh ID... : in a scratch copy of /repo, for each planted change: demo passes clean, patch applies,
# builds, demo fails; then the stable tests with all of them applied together (or one by one with ONE=1).
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/seedrepo; VP=/tmp/seedvp
fresh() { rm -rf /tmp/seedrepo; mkdir /tmp/seedrepo; git -C /repo archive HEAD | tar -x -C /tmp/seedrepo; (cd /tmp/seedrepo && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x); }
rm -rf /tmp/seedvp; cp -a /opt/vp /tmp/seedvp; grep -rlI /repo /tmp/seedvp --include=*.py --include=*.sh | xargs sed -i "s#/repo#/tmp/seedrepo#g; s#/opt/vp#/tmp/seedvp#g"
fresh
run_demo() { (cd /tmp/seedrepo && timeout 300 bash "$V/seeded/$1/demo.sh" >/tmp/seed.out 2>&1; echo $?); }
tests() { bash /tmp/seedvp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    if isinstance(x,list): return set(x)
    for k in ('stable','passed','tests','pass'):
        if k in x: return names(x[k])
    return set(x)
f=names(b)-names(r)
print('TESTS missing:',len(f),sorted(f)[:6])
PY
}
for i in "$@"; do
  P=$V/seeded/$i/patch.diff
  c=$(run_demo "$i"); git -C $S apply "$P" || { echo "$i: patch does not apply"; continue; }
  b=0; bash /tmp/seedvp/build.sh >/tmp/seed.build 2>&1 || b=1
  d=$(run_demo "$i"); echo "$i: clean=$c build=$b patched=$d"
  [ "${ONE:-}" ] && tests
  git -C $S checkout -q -- .
done
if [ -z "${ONE:-}" ] && [ -z "${NOTEST:-}" ]; then for i in "$@"; do git -C $S apply "$V/seeded/$i/patch.diff" || echo "combined: $i conflicts"; done; tests; fi
rm -rf /tmp/seedrepo /tmp/seedvp
