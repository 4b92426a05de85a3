#!/bin/bash
# seedtest.sh ID...: confirms each planted change in a scratch copy of /repo (builds, passes the stable tests, demo fails with it
# and passes without it) and runs the property's check against the copy. Appends one line per change to /verif/out/seedtest.log.
W=${W:-/tmp/wt}; mkdir -p /verif/out
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir -p $W; rsync -a -i --delete --exclude _build --exclude .git/ /repo/ $W/ | awk "/^>f/{print \$2}" | while read f; do touch $W/$f; done
  [ -d $W/_build ] || cp -a /repo/_build $W/_build
  sed "s#/repo#$W#g" /opt/vp/build.sh > $W-build.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W-build.sh#" /opt/vp/test.sh > $W-test.sh
  grep -q "CMAKE_HOME_DIRECTORY:INTERNAL=$W" $W/_build/CMakeCache.txt || rm -rf $W/_build
  clean=skip
  if [ -z "$NOCLEAN" ]; then bash $W-build.sh >/dev/null 2>&1; (cd $W && bash $S/demo.sh >$W-demo0.log 2>&1); clean=$?; fi
  (cd $W && git apply $S/patch.diff) || { echo "$id: patch does not apply"; continue; }
  bash $W-build.sh >$W-b.log 2>&1 || { echo "$id: does not build"; tail -5 $W-b.log; continue; }
  (cd $W && bash $S/demo.sh >$W-demo1.log 2>&1); dem=$?
  tests=skip
  if [ -z "$NOTEST" ]; then bash $W-test.sh $W-o.json >/dev/null 2>&1; tests=$(python3 -c "
import json;o=set(json.load(open('$W-o.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('failed:%s'%[x for x in b if x not in o][:3] if set(b)-o else 'pass')"); fi
  r=skip
  if [ -z "$NOCHECK" ]; then VERIF_REPO=$W python3 /verif/bin/check.py $P > $W-check.log 2>&1; r="$? $(grep -m1 -o 'VIOLATION.*' $W-check.log)"; [ "${r:0:1}" = 0 ] || [ "${r:0:1}" = 1 ] || tail -3 $W-check.log; fi
  echo "$id [$P] demo clean=$clean patched=$dem tests=$tests check=$r" | tee -a /verif/out/seedtest.log
done
