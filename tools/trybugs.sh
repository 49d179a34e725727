#!/bin/bash
# Confirms planted changes in a scratch copy: builds, passes the tests, demo passes without and fails with it,
# and shows which of the given checks report it.   usage: trybugs.sh [bug-id ...]
V=/verif; W=${W:-/tmp/w}
build() { ( export CC=/usr/bin/gcc CXX=/usr/bin/g++; S=$W/_build; rm -rf $S/CMakePasm; mkdir -p $S/CMakePasm; cp -r $W/CMakePasm/samples $S/CMakePasm/samples
 cmake -S $W/CMakePasm -B $S/pasm -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=$CC -DCMAKE_CXX_COMPILER=$CXX -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error && ninja -C $S/pasm eolconvert && ninja -C $S/pasm -j8 ) >$W.build.log 2>&1; }
tests() { T=$W/_build/pasm/unittests; rm -f $T/*.a $T/*.txt $T/*.bin $T/*.sym $T/*.lst
 ( ulimit -f 1048576; ctest --test-dir $T -j1 --timeout 5 --output-junit $W.junit.xml ) >/dev/null 2>&1
 python3 /opt/vp/results.py $W.out.json junit:$W.junit.xml >/dev/null
 python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W.out.json'))['passed'])
m=sorted(b-p); print('  tests: %d of %d stable pass %s'%(len(b)-len(m),len(b),m[:4]))"; }
mkdir -p $W
if [ ! -d $W/.git ]; then git clone -q /repo $W; fi
git -C $W fetch -q && git -C $W reset -q --hard origin/HEAD && git -C $W clean -fdq -e _build
build || { echo "base build failed"; tail -20 $W.build.log; exit 1; }
echo "base: $(git -C $W log --oneline | head -1)"
base=1
for b in "${@:-$(ls $V/seeded)}"; do for i in $b; do
 d=$V/seeded/$i; echo "== $i ($(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"))"
 [ $base = 1 ] || build; base=1
 ( cd $W; timeout 300 bash $d/demo.sh >/dev/null 2>$W.demo.log; r=$?; [ $r = 0 ] || { echo "  DEMO FAILS ON BASE rc $r"; tail -5 $W.demo.log; } )
 git -C $W apply $d/patch.diff || { echo "  does not apply"; continue; }
 if build; then tests
  ( cd $W; timeout 300 bash $d/demo.sh >/dev/null 2>&1; r=$?; [ $r != 0 ] && echo "  demo detects (rc $r)" || echo "  DEMO DOES NOT FAIL" )
  p=${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  for c in $p; do [ -f $V/checks/${c,,}.py ] && { PASM_REPO=$W VERIF_EVIDENCE=/tmp/bug_ev timeout 900 python3 $V/check.py $c >$W.chk.log 2>&1; echo "  check $c rc $?: $(grep -m1 -E 'violated|ERROR' $W.chk.log | cut -c1-200)"; }; done
 else echo "  DOES NOT BUILD"; tail -5 $W.build.log; fi
 git -C $W checkout -q -- .; base=0
done; done
