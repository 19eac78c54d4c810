#!/bin/bash
# seedtest.sh ID [--notests] [--check PROP[,PROP]]
# Confirms a planted bug in a scratch copy of /repo: patch applies, stable
# tests pass, demo passes without / fails with it, and which checks catch it.
ID=$1; shift
TESTS=1; CHECKS=
while [ $# -gt 0 ]; do case $1 in --notests) TESTS=0;; --check) shift; CHECKS=$1;; esac; shift; done
HERE=$(cd "$(dirname "$0")/.." && pwd)
S=$HERE/seeded/$ID
W=$(mktemp -d /tmp/seedtest.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- . 
mkdir "$W/demo"; cp -a "$S"/. "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo"/meta.json
run_demo() { (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo.log" 2>&1; echo $?); }
rc0=$(run_demo)
[ "$rc0" = 0 ] || { echo "$ID demo unpatched rc=$rc0"; tail -5 "$W/demo.log"; }
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
rc1=$(run_demo)
echo "$ID demo: clean=$rc0 patched=$rc1"
tail -2 "$W/demo.log" | cut -c1-200
if [ -z "$CHECKS" ]; then CHECKS=$(/usr/bin/python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])"); fi
for c in ${CHECKS//,/ }; do
  (cd "$HERE" && VERIF_REPO=$W/repo timeout 900 python3 harness/check.py $c --tier quick --seed ${VERIF_SEED:-1} > "$W/check.log" 2>&1; rc=$?
   echo "$ID check $c rc=$rc $(grep -m1 VIOLATION "$W/check.log" | cut -c1-200)"; [ $rc = 1 ] || tail -3 "$W/check.log")
done
if [ $TESTS = 1 ]; then
  mkdir -p "$W/vp"; cp -r /opt/vp/lib "$W/vp/"
  sed -i "s#^SRC=/repo#SRC=$W/repo#; s#^FBUILD=.*#FBUILD=$W/fbuild#" "$W/vp/lib/env.sh"
  sed "s#/opt/vp/lib#$W/vp/lib#g" /opt/vp/test.sh > "$W/vp/test.sh"
  if grep -q '^+++ b/fortran' "$S/patch.diff"; then
     (. "$W/vp/lib/env.sh"; fortran_configure && cmake --build "$FBUILD") > "$W/fb.log" 2>&1 || { echo "$ID: fortran build fails"; tail -5 "$W/fb.log"; }
  fi
  bash "$W/vp/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  /usr/bin/python3 - "$W/out.json" "$ID" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(d):
    for k in ("passed","stable","tests","stable_passing"):
        if k in d: return set(d[k])
    raise SystemExit(str(list(d)))
missing=passed(b)-passed(o)
print(sys.argv[2],"tests:", "all stable tests pass" if not missing else "FAIL %d: %s"%(len(missing),sorted(missing)[:4]))
PY
fi
