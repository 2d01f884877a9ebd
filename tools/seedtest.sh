#!/bin/bash
# seedtest.sh <id> [noTests]: confirm a planted bug in a scratch copy: applies, builds, tests pass, demo 0 -> nonzero.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
id=$1; d=$V/seeded/$id; w=/tmp/seed.$id.$$
cp -a $R $w; cd $w || exit 9
cleanup() { rm -rf "$w"; }
trap cleanup EXIT
dd=/tmp/seeddemo.$id.$$; mkdir -p $dd; cp -a $d/. $dd/; rm -f $dd/*.diff $dd/meta.json
timeout 300 bash $dd/demo.sh >/tmp/seed.$id.base.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
git diff --stat | tail -1
timeout 300 bash $dd/demo.sh >/tmp/seed.$id.bug.log 2>&1; b=$?
rm -rf "$dd"
echo "$id: demo unchanged=$a patched=$b"
if [ "${2:-}" != noTests ]; then
  PYTHONPATH=$w timeout 600 /opt/venv/bin/python -m pytest -q --deselect "tests/distance/test_information.py::test_range_generic_info" -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize tests 2>&1 | tail -3
fi
