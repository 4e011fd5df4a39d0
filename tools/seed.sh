#!/bin/bash
# Confirm a planted bug in a scratch copy (never in /repo itself):
#   seed.sh <id>            builds, passes the stable tests, demo passes without and fails with it
#   seed.sh --checks <id> [props...]   run the quick checks against it (default: its own property)
# Everything happens in /tmp/sw (copy of /repo) and /tmp/vw (copy of /verif), bound over
# /repo and /verif inside a private mount namespace.
set -e
mode=confirm; [ "$1" = --checks ] && { mode=checks; shift; }
id=$1; shift
seed=/verif/seeded/$id
[ -f $seed/patch.diff ] || { echo "no $seed/patch.diff"; exit 2; }
mkdir -p /tmp/sw /tmp/vw /tmp/sd
[ -d /tmp/sw/target ] || cp -a /repo/. /tmp/sw/
rm -rf /tmp/sw/src /tmp/sw/tests /tmp/sw/sdk/ts/src /tmp/sd/$id; mkdir -p /tmp/sw/sdk/ts; cp -r /repo/sdk/ts/src /tmp/sw/sdk/ts/src; cp -r /repo/src /repo/tests /repo/Cargo.toml /repo/Cargo.lock /tmp/sw/
mkdir -p /tmp/sd/$id; for f in $seed/*; do case $f in *.diff|*/meta.json) ;; *) cp $f /tmp/sd/$id/;; esac; done
cp $seed/patch.diff /tmp/sd/$id.diff
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $seed/meta.json)
if [ $mode = checks ]; then
  [ -d /tmp/vw/mc/target ] || { mkdir -p /tmp/vw/mc; cp -a /verif/mc/target /tmp/vw/mc/; }
  (cd /verif && tar cf - --exclude=./mc/target --exclude=./.git --exclude=./evidence --exclude=./seeded .) | tar xf - -C /tmp/vw
  props="${*:-$prop}"
  unshare -m bash -c "mount --bind /tmp/sw /repo; mount --bind /tmp/vw /verif; cd /repo && git apply /tmp/sd/$id.diff && find src -name '*.rs' -exec touch {} + ; for p in $props; do /verif/check.sh \$p quick > /tmp/sd/$id.\$p.out 2>&1; rc=\$?; echo \"$id \$p rc=\$rc \$(grep -c '^VIOLATION' /tmp/sd/$id.\$p.out) violation(s) \$(grep '^---' /tmp/sd/$id.\$p.out | head -2 | cut -c1-160 | tr '\n' '|')\"; done; rm -rf /tmp/vw/evidence"
  exit 0
fi
unshare -m bash -c "mount --bind /tmp/sw /repo; cd /repo; find src -name '*.rs' -exec touch {} +
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1 || { echo BUILD0; exit 1; }
bash /tmp/sd/$id/demo.sh >/tmp/sd/$id.demo0 2>&1; echo \"$id unchanged demo rc=\$?\"
git apply /tmp/sd/$id.diff || exit 1
find src -name '*.rs' -exec touch {} +
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1 || { echo BUILD FAILS; tail -30 /tmp/sd/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/sd/$id.tests.json >/tmp/sd/$id.tests.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sd/$id.tests.json'))
st=set(b.get('stable',b.get('passed',[]))) if isinstance(b,dict) else set(b)
ok=set(r.get('passed',[]))
print('$id tests: missing from stable:', sorted(st-ok))
P
bash /tmp/sd/$id/demo.sh >/tmp/sd/$id.demo1 2>&1; echo \"$id patched demo rc=\$?\"
"
