#!/bin/bash
# Development aid: tools/trybug.sh [-t] [-c] ID...   (-t: run the test suite, -c: run the property's check)
# Works on scratch copies of /repo under /tmp; never touches /repo.
T=0; C=0
while [ "${1#-}" != "$1" ]; do case $1 in -t) T=1;; -c) C=1;; esac; shift; done
HERE=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
one() {
  id=$1; d=$HERE/seeded/$id; w=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo "$w/repo"
  export PYTHONPATH=$w/repo/src
  prop=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  cp -a "$d" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/out0" 2>&1); r0=$?
  if ! git -C "$w/repo" apply "$d/patch.diff" 2>"$w/ap"; then echo "$id PATCH-FAILS $(head -1 "$w/ap")"; /bin/rm -rf "$w"; return; fi
  (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/out1" 2>&1); r1=$?
  line="$id [$prop] demo clean=$r0 patched=$r1"
  [ $r0 != 0 ] && tail -3 "$w/out0"
  if [ $T = 1 ]; then
    (cd "$w/repo" && timeout 600 $PY -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 -m "not slow" \
      -o python_files='test_*.py *_test.py *_tests.py' --continue-on-collection-errors -W ignore \
      -o junit_family=xunit2 --junitxml="$w/junit.xml" >"$w/tests" 2>&1)
    line="$line tests: $($PY - "$w/junit.xml" <<'P'
import json,sys,xml.etree.ElementTree as E
base=json.load(open('/opt/vp/BASELINE.json'))
names=set(base.get('passed',base.get('stable',base if isinstance(base,list) else [])))
ok=set();bad=set()
for c in E.parse(sys.argv[1]).iter('testcase'):
    n=c.get('classname','')+'::'+c.get('name','')
    (bad if any(k.tag in('failure','error') for k in c) else ok).add(n)
print(len(ok),'pass',len(bad),'fail', sorted(bad)[:8] if len(bad)>6 else '')
P
)"
  fi
  if [ $C = 1 ]; then
    o=$(cd "$HERE" && DST_REPO_SRC=$w/repo/src timeout 900 ./check.sh $prop quick 2>&1); rc=$?
    line="$line check rc=$rc $(echo "$o" | tail -4 | head -c 300 | tr '\n' ' ')"
  fi
  echo "$line"; /bin/rm -rf "$w"
}
for i in "$@"; do one "$i"; done
