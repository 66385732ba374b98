#!/bin/bash
# seedtest.sh ID [check...]: confirm a planted change in a scratch copy of
# /repo (applies, builds, passes the tests, demo 0 without and nonzero with
# it) and run the given checks (default: its property) against it.
set -u
id=$1; shift
s=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir $w/d && cp -a $s/. $w/d/ && rm -f $w/d/*.diff $w/d/meta.json
cp -a /repo $w/repo && cd $w/repo || exit 2
b() { cmake -S $w/repo -B $w/repo/_build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_fbstab_INCLUDE=/opt/vp/cmake/offline.cmake >$w/log 2>&1 && ninja -C $w/repo/_build >>$w/log 2>&1; }
rm -rf $w/repo/_build
if [ -z "${NOCLEAN:-}" ]; then
  b || { echo "$id: clean build failed"; tail -5 $w/log; exit 1; }
  timeout 300 bash $w/d/demo.sh >$w/o0 2>&1; r0=$?
else r0=0; fi
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
b || { echo "$id: build failed"; grep -m3 error $w/log; exit 1; }
ctest --test-dir $w/repo/_build -j4 --timeout 120 >$w/t 2>&1; t=$?
timeout 300 bash $w/d/demo.sh >$w/o1 2>&1; r1=$?
ok=OK; [ $r0 = 0 -a $r1 != 0 -a $t = 0 ] || ok=BAD
echo "$id ($p): demo clean=$r0 patched=$r1 tests=$t $ok"
[ $ok = OK ] || { tail -3 $w/o0 $w/o1; tail -12 $w/t; }
for c in ${@:-$p}; do
  FBSTAB_REPO=$w/repo FBSTAB_EVIDENCE=$w timeout 900 python3 /verif/check.py $c >$w/c 2>&1; r=$?
  echo "   $c exit $r: $(grep -v '^UNDECIDED' $w/c | head -1 | cut -c1-220)"
done
