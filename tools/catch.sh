#!/bin/bash
# catch.sh <id> [property] [tier]: run a check against a scratch copy of /repo with the planted bug.
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
id=$1; p=${2:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
w=/tmp/catch.$id.$$; mkdir -p $w; cp -a $R/quantfinlib $w/; cd $w
cleanup() { rm -rf "$w"; }
trap cleanup EXIT
(cd $w && git init -q . && git apply $V/seeded/$id/patch.diff) || { echo "$id: no apply"; exit 9; }
cd $V; s=$(date +%s); VERIF_REPO=$w ./check $p ${3:-quick} > /tmp/catch.$id.$p.log 2>&1; r=$?
echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -m1 -A1 VIOLATION /tmp/catch.$id.$p.log | cut -c1-300)"
