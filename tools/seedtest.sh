#!/bin/bash
# seedtest.sh DIR...: confirm planted bugs in a scratch copy: patch applies, builds, stable tests pass, demo 0/nonzero
for D in "$@"; do
D=$(realpath "$D"); rm -rf /tmp/sdt; cp -a /repo /tmp/sdt; rm -rf /tmp/sdt/_build; cd /tmp/sdt
( timeout 300 bash "$D/demo.sh" >/tmp/sdt.demo0 2>&1 ); a=$?
git apply "$D/patch.diff" || { echo "$D: patch does not apply"; continue; }
cmake -S /tmp/sdt -B /tmp/sdt/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 -DCMAKE_CXX_FLAGS="-include stdexcept" -DBOOST_ROOT=/usr -Dwith_rocks=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_BEAST_EXTRAS_SRC=/opt/vp/beast_extras -DCMAKE_PROJECT_NuDB_INCLUDE=/opt/vp/extra.cmake >/tmp/sdt.log 2>&1 && ninja -C /tmp/sdt/_build >>/tmp/sdt.log 2>&1 || { echo "$D: does not build"; tail -5 /tmp/sdt.log; continue; }
t=skipped
if [ -z "$NOTEST" ]; then mkdir -p _build/rep; python3 /opt/vp/run_suites.py /tmp/sdt/_build/test/test-all /tmp/sdt/_build/rep >>/tmp/sdt.log 2>&1; python3 /opt/vp/results.py /tmp/sdt/_build/out.json "lines:/tmp/sdt/_build/rep/*.lines" >/dev/null 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sdt/_build/out.json'))
def names(x):
    for k in('passed','stable'):
        if k in x: v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('pass','passed',True)])
    return set()
m=names(b)-names(o); print('tests ok' if not m else 'TESTS FAIL '+str(sorted(m)[:4]))
P
); fi
( timeout 300 bash "$D/demo.sh" >/tmp/sdt.demo1 2>&1 ); c=$?
echo "$(basename $D): demo unchanged=$a patched=$c; $t"; [ $a = 0 ] || tail -3 /tmp/sdt.demo0; [ $c != 0 ] || tail -3 /tmp/sdt.demo1
done; rm -rf /tmp/sdt
