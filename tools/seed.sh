#!/bin/bash
# tools/seed.sh <id> [check...]: confirm planted bug seeded/<id> in a scratch copy of /repo (mounted over /repo in a
# namespace of its own), and run checks against it (default: the check of its property).
# NOTESTS=1 skips the stable tests, CHECKONLY=1 runs the checks only.
id=$1; shift
S=/tmp/seedrepo; V=/tmp/seedverif
[ -d $S ] || cp -a /repo $S
mkdir -p $V
rsync -a --delete --exclude /.git --exclude /build --exclude /evidence /verif/ $V/
[ -d $V/build ] || cp -a /verif/build $V/build
mkdir -p $V/evidence
cd $S && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 9
checks="$*"
[ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
D=/tmp/seeddemo.$id; rm -rf /tmp/seeddemo.$id; mkdir $D; cp /verif/seeded/$id/* $D/; rm -f $D/*.diff $D/meta.json
cat > /tmp/seedinner.$id.sh <<X
mount --bind $S /repo; mount --bind $V /verif
cd /repo
if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || echo "UNPATCHED BUILD FAILED"
  bash $D/demo.sh >/tmp/seed.d0 2>&1; echo "demo unpatched: \$?"
fi
git apply /verif/seeded/$id/patch.diff || exit 8
if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "BUILD FAILED"; tail -30 /tmp/seed.log; }
  bash $D/demo.sh >/tmp/seed.d1 2>&1; echo "demo patched: \$?"; tail -3 /tmp/seed.d1
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/test.sh /tmp/seed.out >/tmp/seed.t 2>&1
    python3 -c "
import json
o=json.load(open('/tmp/seed.out')); b=json.load(open('/opt/vp/BASELINE.json'))
ps=set(o['passed']); bs=set(b.get('passed') or b.get('stable') or b.get('tests'))
print('tests missing:', sorted(bs-ps)[:10])"
  fi
fi
for c in $checks; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh \$c quick >/tmp/seed.c 2>&1; rc=\$?; echo "check \$c: exit \$rc"; grep -aE "^VIOLATION|^----|ERROR" /tmp/seed.c | head -8)
done
X
unshare -Urm bash /tmp/seedinner.$id.sh
cd $S && git checkout -q -- .
rm -rf /tmp/seeddemo.$id /tmp/seedinner.$id.sh
