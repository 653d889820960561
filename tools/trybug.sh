#!/bin/bash
# trybug.sh ID...: confirms planted bugs in scratch copies of /repo and /opt/vp (bind-mounted over them in a private
# mount namespace): applies, builds, passes the stable tests, demo passes without and fails with the patch; then runs
# the quick check of its property. One line of verdict per bug.  Usage: POOL=n trybug.sh ID...
V=/verif
pool=/var/tmp/mut${POOL:-0}
if [ ! -d $pool/repo ]; then mkdir -p $pool; cp -a /repo $pool/repo; cp -a /opt/vp $pool/vp; fi
for id in "$@"; do
  [ -f $V/seeded/$id/patch.diff ] || { echo "$id: no patch"; continue; }
  git -C $pool/repo checkout -q -- . ; git -C $pool/repo fetch -q /repo HEAD && git -C $pool/repo reset -q --hard FETCH_HEAD ; git -C $pool/repo tag -d vcheck-pass >/dev/null 2>&1
  # demo files without patch and meta, elsewhere
  d=$pool/demo; rm -rf /var/tmp/mut${POOL:-0}/demo; mkdir -p $d; cp -a $V/seeded/$id/. $d/; rm -f $d/*.diff $d/meta.json
  cat > $pool/inner.sh <<I
mount --bind $pool/repo /repo; mount --bind $pool/vp /opt/vp; mount -t tmpfs tmpfs /tmp
cd /repo
b() { bash /opt/vp/build.sh > $pool/build.log 2>&1; }
if [ -z "$SKIPBASE" ]; then
b || { echo "$id: BASE BUILD FAILS"; exit; }
timeout 300 bash $d/demo.sh > $pool/demo0.log 2>&1; r0=\$?
[ \$r0 = 0 ] || { echo "$id: DEMO FAILS ON BASE (\$r0): \$(tail -3 $pool/demo0.log)"; exit; }
fi
git apply $V/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
b || { echo "$id: BUILD FAILS \$(grep -m3 error $pool/build.log)"; git checkout -q -- .; exit; }
timeout 300 bash $d/demo.sh > $pool/demo1.log 2>&1; r1=\$?
[ \$r1 != 0 ] || echo "$id: DEMO PASSES WITH PATCH"
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh $pool/o.json > $pool/test.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$pool/o.json'))
x=sorted(set(b['stable'])-set(o['passed']))
if x: print('$id: TESTS BROKEN:',x[:5])
else: print('$id: valid (demo \$r1)')"
fi
P=\$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
if [ -z "$SKIPCHECK" ]; then
VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash $V/run.sh \$P > $pool/check.log 2>&1; rc=\$?
echo "$id: \$P check exit \$rc  \$(grep -m1 -A1 'failure' $pool/check.log | cut -c1-300)"
fi
git checkout -q -- .
I
  unshare -m bash $pool/inner.sh
done
