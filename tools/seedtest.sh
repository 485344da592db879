#!/bin/bash
# seedtest.sh [-n] ID...: for each planted bug, in a private mount namespace with
# copies of /repo and /verif: clean demo, patched build, tests, demo, its check.
# -n: skip the repository's tests.
notest=0; [ "$1" = -n ] && { notest=1; shift; }
for id in "$@"; do
  w=/var/tmp/seedw/$id; rm -rf "/var/tmp/seedw/$id"; mkdir -p $w
  cp -a /repo $w/repo; cp -a /verif $w/verif
  cat > $w/run.sh <<R
mount -t tmpfs tmp /tmp && mount --bind $w/repo /repo && mount --bind $w/verif /verif || exit 9
cd /repo
p=\$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
bash /verif/seeded/$id/demo.sh > $w/demo0 2>&1; d0=\$?
git apply /verif/seeded/$id/patch.diff || echo "$id APPLY FAILED"
t=skipped
if [ $notest = 0 ]; then
  bash /opt/vp/build.sh > $w/build.log 2>&1 || echo "$id BUILD FAILED"
  bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
  t=\$(tail -1 $w/test.log)
fi
bash /verif/seeded/$id/demo.sh > $w/demo1 2>&1; d1=\$?
cd /verif
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py \$p > $w/check.log 2>&1; c=\$?
echo "$id \$p clean-demo=\$d0 patched-demo=\$d1 tests=[\$t] check=\$c \$(grep -m1 -a ^VIOLATION $w/check.log)"
R
  unshare -Urm bash $w/run.sh
  mkdir -p /tmp/seedlog; cp $w/check.log /tmp/seedlog/$id.check 2>/dev/null; cp $w/demo1 /tmp/seedlog/$id.demo
  cp $w/t.json /tmp/seedlog/$id.tests 2>/dev/null; rm -rf "/var/tmp/seedw/$id"
done
