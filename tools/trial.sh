#!/bin/bash
# trial.sh SEED...: the check of its property against each planted bug, in a scratch copy
V="$(cd "$(dirname "$0")/.." && pwd)"
for s in "$@"; do
	w=$(mktemp -d); cp -a /repo $w/repo; git -C $w/repo checkout -q -- .
	if git -C $w/repo apply $V/seeded/$s/patch.diff; then
		p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
		VERIF_REPO=$w/repo VERIF_OUT=$w python3-vt $V/check.py $p > $w/out 2>&1; r=$?
		echo "$s: $p exit $r: $(grep -h VIOLATION $w/out | cut -c1-150 | head -2 | tr '\n' ' ') | $(grep -h obligations $w/out | cut -c1-150 | tail -1)"
	fi
	rm -rf $w
done
