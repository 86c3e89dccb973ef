#!/bin/bash
# plant.sh ID... -- developer aid: confirm planted changes of /verif/seeded in scratch copies of /repo
# (applies, builds, stable tests pass, demo 0 -> nonzero, changed lines are original) and say whether the property's check sees them.
base=$(git -C /repo log --format=%H --reverse | head -1)
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  d=/tmp/plant.$id; rm -rf "/tmp/plant.$id"; mkdir -p $d
  (cd /repo && git ls-files -z | tar --null -T - -cf - | tar -xf - -C $d)
  L=lib/digitraffic-common
  cp -a /repo/$L/dist $d/$L/dist; cp -al /repo/$L/node_modules $d/$L/node_modules
  (cd $d; bash $s/demo.sh >/tmp/plants/$id.demo0 2>&1); d0=$?
  (cd $d; git apply $s/patch.diff) || { echo "$id: DOES NOT APPLY"; continue; }
  # removed lines must be original
  orig=$(python3 - $s/patch.diff $base <<'P'
import re,subprocess,sys
old=0;f=None;bad=0;n=0
for l in open(sys.argv[1]):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m[1].strip();continue
    m=re.match(r'@@ -(\d+)',l)
    if m: old=int(m[1]);continue
    if l.startswith('+++') or l.startswith('+') or l.startswith('diff') or l.startswith('index'): continue
    if l.startswith('-'):
        n+=1
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L',f'{old},{old}','HEAD','--',f],capture_output=True,text=True).stdout
        if b.split()[0].lstrip('^')[:39]!=sys.argv[2][:39]: bad+=1
    old+=1
print(f"{n-bad}/{n}")
P
)
  (cd $d/$L && TZ=UTC CI=1 node node_modules/typescript/bin/tsc -p tsconfig.json >/tmp/plants/$id.build 2>&1); b=$?
  t="-"; if [ -z "$NOTEST" ]; then
  (cd $d/$L && TZ=UTC CI=1 node node_modules/vitest/vitest.mjs run --maxWorkers=4 --testTimeout=60000 --exclude src/__test__/utils/stop-watch.test.ts --reporter=json --outputFile=/tmp/plants/$id.v.json >/dev/null 2>&1)
  t=$(python3 - $id <<'P'
import json,sys
r=json.load(open(f'/tmp/plants/{sys.argv[1]}.v.json'))
print(f"{r['numPassedTests']}ok/{r['numFailedTests']}fail", [a['fullName'] for f in r['testResults'] for a in f['assertionResults'] if a['status']=='failed'][:2] or '')
P
)
  fi
  (cd $d; bash $s/demo.sh >/tmp/plants/$id.demo1 2>&1); d1=$?
  c="-"; if [ -z "$NOCHECK" ]; then
  VERIF_REPO=$d timeout 900 node /verif/run.mjs $p >/tmp/plants/$id.check 2>&1; c=$?; fi
  echo "$id [$p] orig-lines=$orig build=$b tests=$t demo=$d0->$d1 check=$c $(grep -m1 -A1 VIOLATION /tmp/plants/$id.check 2>/dev/null| tail -1 | cut -c1-160)"
  rm -rf "/tmp/plant.$id"
done
