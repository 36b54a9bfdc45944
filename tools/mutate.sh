#!/bin/bash
# mutate.sh ID [CHECK...]: runs checks (of the bug's property) against a copy of /repo with a planted bug
v=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo "$d/r"; git -C "$d/r" apply "$v/seeded/$id/patch.diff" || exit 3
[ $# -eq 0 ] && set -- $(python3 -c "import json,sys;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
for c in "$@"; do HV_REPO=$d/r "$v/check" $c > "$d/out" 2>&1; r=$?; echo "$id $c rc=$r $(grep -h clauses "$d/out" | sort | uniq -c | sort -rn | head -3 | tr -s ' ' | tr '\n' ';')"; [ $r -eq 2 ] && tail -3 "$d/out"; done
rm -rf "$d"
