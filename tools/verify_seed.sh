#!/bin/bash
# verify_seed.sh ID...: in a scratch copy, the bug builds, passes the stable tests, and its demo tells the trees apart.
W=/tmp/seedcheck; mkdir -p $W
case $W in /tmp/*) ;; *) exit 3;; esac
rm -rf $W/repo; cp -a /repo $W/repo
git -C $W/repo checkout -q -- .
for id in "$@"; do
  d=/verif/seeded/$id
  cd $W/repo && git checkout -q -- .
  timeout 300 bash $d/demo.sh > $W/$id.clean 2>&1; clean=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  timeout 300 cargo test --workspace --no-fail-fast --offline > $W/$id.tests 2>&1
  python3 - $W/$id.tests <<'P'
import json,re,sys
base=json.load(open('/opt/vp/BASELINE.json')); text=open(sys.argv[1]).read()
ok=set(re.findall(r'^test (\S+) \.\.\. ok',text,re.M))
bad=[n for n in base['stable'] if n.split('::',1)[1] not in ok]
print('   failing tests:',bad)
P
  timeout 300 bash $d/demo.sh > $W/$id.dirty 2>&1; dirty=$?
  git checkout -q -- .
  echo "$id: demo unchanged=$clean patched=$dirty  $(grep -h panicked -A1 $W/$id.dirty | tail -1 | cut -c1-150)"
  [ $clean = 0 ] || tail -5 $W/$id.clean
  [ $dirty = 0 ] || grep -hE '^error' -A6 $W/$id.dirty | head -20
done
rm -rf $W/repo
