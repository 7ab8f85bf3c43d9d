#!/bin/bash
# Development aid: runs the stable tests on a scratch copy of /repo's working tree.
. /opt/vp/env.sh
w=$(mktemp -d /tmp/suite.XXXXXX); cp -a /repo "$w/repo"; export PYTHONPATH=$w/repo/src
cd "$w/repo" && timeout 800 $PY -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 -m "not slow" \
  -o python_files='test_*.py *_test.py *_tests.py' --continue-on-collection-errors -W ignore \
  -o junit_family=xunit2 --junitxml="$w/junit.xml" >"$w/tests" 2>&1
$PY - "$w/junit.xml" <<'P'
import json,sys,xml.etree.ElementTree as E
base=json.load(open('/opt/vp/BASELINE.json'))
names=base.get('passed',base.get('stable')) if isinstance(base,dict) else base
ok=set();bad=set()
for c in E.parse(sys.argv[1]).iter('testcase'):
    n=c.get('classname','')+'::'+c.get('name','')
    (bad if any(k.tag in('failure','error') for k in c) else ok).add(n)
print(len(ok),'pass',len(bad),'fail',sorted(bad)[:10])
P
/bin/rm -rf "$w"
