#!/bin/bash
# try.sh DIR: does the patch in DIR build, pass the tests, and fail its demo only when applied?
d=$(realpath "$1"); w=/tmp/seedtry.$$
cp -a /repo "$w"; cd "$w" || exit 1
make -B -j8 all >/dev/null 2>&1; bash "$d/demo.sh" >/tmp/seed.a 2>&1; a=$?
git apply "$d/patch.diff" || { cd /; rm -rf "$w"; exit 1; }
make -B -j8 all >/tmp/seed.b 2>&1 || { echo "NO BUILD"; tail -3 /tmp/seed.b; }
bash "$d/demo.sh" >/tmp/seed.c 2>&1; b=$?
f=0; for t in tests/*.test; do (timeout 240 ./$t >/dev/null 2>&1 || echo "TEST FAIL $t") & done; wait
echo "$(basename $d): clean=$a patched=$b"; tail -1 /tmp/seed.a|cut -c1-150; tail -2 /tmp/seed.c|cut -c1-150
cd /; rm -rf "$w"
