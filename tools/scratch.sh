#!/bin/bash
# scratch.sh OUT [PATCH [DEMO]]: in a private mount namespace, a scratch copy of
# /repo (with its build products) stands at /repo; apply PATCH, build, run DEMO,
# run the stable tests; the result goes to OUT (text).  The real /repo is not touched.
set -u
out=$(realpath -m "$1"); patch=${2:+$(realpath "$2")}; demo=${3:+$(realpath "$3")}
S=$(mktemp -d /tmp/scratch.XXXXXX)
cp -a /repo "$S/repo"
: > "$out"
unshare -Urm bash -c '
  set -u; S=$1 out=$2 patch=$3 demo=$4
  mount --bind "$S/repo" /repo || exit 9
  cd /repo
  git checkout -q -- . 
  if [ -n "$patch" ]; then git apply "$patch" && echo "applied" >> "$out" || { echo "NOT APPLIED" >> "$out"; exit 1; }; fi
  bash /opt/vp/build.sh > "$S/build.log" 2>&1 && echo "built" >> "$out" || { echo "BUILD FAILED" >> "$out"; tail -20 "$S/build.log" >> "$out"; exit 1; }
  if [ -n "$demo" ]; then (cd /repo && timeout 300 bash "$demo" > "$S/demo.log" 2>&1); echo "demo exit $?" >> "$out"; tail -5 "$S/demo.log" >> "$out"; fi
  [ -n "${NOTEST:-}" ] && exit 0
  bash /opt/vp/test.sh "$S/t.json" > "$S/test.log" 2>&1
  python3 - "$S/t.json" >> "$out" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(sys.argv[1]))
st=b.get("stable") or b.get("passed") or b
st=set(st if isinstance(st,list) else st.get("passed"))
miss=sorted(st-set(t["passed"]))
print("tests: %d of %d stable pass; missing %s"%(len(st)-len(miss),len(st),miss[:20]))
P
' _ "$S" "$out" "$patch" "$demo"
rm -rf "$S"
