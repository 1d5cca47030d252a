#!/bin/bash
# tools/seedcheck.sh ID... : confirms seeded changes in a scratch clone of /repo
# (builds, passes the tests, the demonstration tells the trees apart) and runs
# the property's quick check on each. Leaves nothing behind but that clone.
W=${SEEDTREE:-/tmp/sw}
V=$(cd "$(dirname "$0")/.." && pwd)
[ -d $W/.git ] || git clone -q /repo $W
git -C $W fetch -q && git -C $W reset -q --hard FETCH_HEAD 2>/dev/null
git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
build() { local t d; for t in Debug Release; do d=$W/_build/${t,,}
  CC=gcc CXX=g++ cmake -S $W -B $d -G Ninja -DCMAKE_BUILD_TYPE=$t >/dev/null && ninja -C $d >/dev/null || return 1; done; }
build || exit 1
for i in "$@"; do
  d=$V/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $W && bash $d/demo.sh >/dev/null 2>&1) && a=ok || a=BAD-CLEAN-DEMO
  git -C $W apply $d/patch.diff || { echo "$i: BAD-PATCH"; continue; }
  if build; then b=ok; else b=BAD-BUILD; fi
  t=ok; for k in debug release; do ctest --test-dir $W/_build/$k -j8 --timeout 300 >$W.log 2>&1 || { t="$t TESTS-$k: $(grep 'tests passed' $W.log)"; }; done
  (cd $W && timeout 300 bash $d/demo.sh >/dev/null 2>&1) && c=BAD-DEMO-PASSES || c=ok
  echo "$i [$p]: clean demo $a, build $b, tests $t, demo on patch $c"
  if [ -z "$NOCHECK" ]; then
    (cd $V && VERIF_SEED=${VERIF_SEED:-1} ETHOS_REPO=$W timeout 900 python3 check.py $p | grep -v "^  " | cut -c1-200 | head -${N:-3})
  fi
  git -C $W checkout -q -- .
  build
done
