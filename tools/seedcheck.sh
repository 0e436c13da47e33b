#!/bin/bash
# seedcheck.sh ID...: confirms each planted change in a scratch copy of /repo (applies, builds, stable
# tests pass, demo passes without it and fails with it), then runs the property's quick check on it.
S=/tmp/seedcopy
V=/verif
if [ ! -d $S ]; then cp -a /repo $S; fi
build() { # the driver of /opt/vp/build.sh on the copy
  export CC=/usr/bin/gcc CXX=/usr/bin/g++
  cmake -S /opt/vp/cmake -B $S/_b2 -G Ninja -DREPO=$S -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g" -DCMAKE_CXX_FLAGS="-Wno-error" >/tmp/seed_build.log 2>&1 && ninja -C $S/_b2 >>/tmp/seed_build.log 2>&1
}
demo() { rm -rf /tmp/seeddemo; cp -r $V/seeded/$1 /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json; ln -sfn _b2 $S/_build; (cd $S && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed_demo.log 2>&1); }
rm -rf $S/_build
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD; git -C $S reset -q --hard FETCH_HEAD
build || { echo "BASE BUILD FAILS"; exit 1; }
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  demo $id || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/seed_demo.log; build; continue; }
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  r="$id ($prop):"
  if build; then
    ctest --test-dir $S/_b2 -j4 --timeout 60 > /tmp/seed_test.log 2>&1; 
    f=$(python3 - <<PY
import json,re
base=json.load(open('/opt/vp/BASELINE.json'))
names=base["stable"]
failed=re.findall(r'^\s*\d+ - (\S+) \((?:Failed|Timeout|SEGFAULT|Subprocess aborted|ILLEGAL|Exception)', open('/tmp/seed_test.log').read(), re.M)
print(' '.join(x for x in failed if x in names))
PY
)
    r="$r tests:${f:-pass}"
    if demo $id; then r="$r demo:PASSES-WITH-BUG"; else r="$r demo:fails($?)"; fi
    if [ -z "$NOCHECK" ]; then
      t0=$(date +%s); (cd $V && SYMX_REPO=$S timeout 900 python3 check.py ${CHECKPROP:-$prop} > /tmp/seed_check_$id.log 2>&1); rc=$?
      r="$r check:$rc $(grep -c ^VIOLATION /tmp/seed_check_$id.log) ($(( $(date +%s)-t0 ))s)"
    fi
  else r="$r BUILD FAILS"; tail -3 /tmp/seed_build.log; fi
  echo "$r"
  git -C $S checkout -q -- .
done
build
