#!/bin/bash
# prove_bug.sh <id>: in a scratch copy of /repo, confirms that seeded/<id>/patch.diff applies, builds, passes the
# stable tests, and that demo.sh exits 0 without and non-zero with it.
export GIT_LFS_SKIP_SMUDGE=1; id=$1; v="$(cd "$(dirname "$0")/.." && pwd)"; w=/tmp/seedwt
[ -d $w ] || cp -a /repo $w
git -C $w checkout -q -- . ; git -C $w fetch -q /repo 2>/dev/null; git -C $w reset -q --hard "$(git -C /repo rev-parse HEAD)" || exit 2
sed "s#cd /repo#cd $w#" /opt/vp/env.sh > /tmp/seedenv.sh; . /tmp/seedenv.sh
build() { cargo build --lib --bins $FLAGS >/tmp/seed.log 2>&1; }
d=$(mktemp -d /tmp/demo.XXXX); cp -r $v/seeded/$id/. $d/
build || { echo "$id: base does not build"; exit 1; }
(cd $w; timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); r0=$?
git -C $w apply $v/seeded/$id/patch.diff || { echo "$id: does not apply"; exit 1; }
build || { echo "$id: does not build"; tail -20 /tmp/seed.log; exit 1; }
(cd $w; time timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
sed "s#/opt/vp/env.sh#/tmp/seedenv.sh#" /opt/vp/test.sh > /tmp/seedtest.sh
bash /tmp/seedtest.sh /tmp/seedout.json >/tmp/seedtest.log 2>&1
python3 - <<'P'
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/seedout.json'))['passed'])
print("stable tests broken:", sorted(s-o))
P
git -C $w checkout -q -- .
rm -rf "$d"
echo "$id: demo unchanged=$r0 patched=$r1"
