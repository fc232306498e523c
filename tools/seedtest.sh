#!/bin/bash
# seedtest.sh SEED_DIR [check]: confirms a planted bug in a private copy of /repo (own mount namespace): demo before, patch, build, tests, demo after, checks
S=$(realpath "$1"); P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cat > "$W/run.sh" <<R
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; echo "demo unchanged: \$? (want 0)"
git apply $S/patch.diff || exit 8
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh >$W/b 2>&1 || { tail -20 $W/b; exit 7; }
bash /opt/vp/test.sh $W/t.json >$W/tl 2>&1; tail -1 $W/tl; grep ^FAIL $W/tl
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; echo "demo patched: \$? (want != 0)"; tail -3 $W/d1
fi
cd /verif
for p in $P; do KOS_BUILD=$W/build VERIF_OUT=$W/out timeout 900 python3 checks/\$p.py >$W/c 2>&1; echo "check \$p: \$? (want 1)"; tail -3 $W/c; done
R
unshare -Urm bash "$W/run.sh"
case "$W" in /tmp/seed.*) rm -rf "$W";; esac
