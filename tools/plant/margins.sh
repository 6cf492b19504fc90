#!/bin/bash
# usage: margins.sh [id...]: how many runs each planted bug takes to be found, for seeds 1-4
V=$(cd "$(dirname "$0")/../.." && pwd)
ids=${*:-$(ls $V/seeded)}
W=/tmp/margins.$$
one() {
	id=$1; d=$W/$id
	mkdir -p "$d" && cp -a /repo "$d/repo" && git -C "$d/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; return; }
	p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
	out=
	for s in 1 2 3 4; do
		o=$(VERIF_REPO=$d/repo VERIF_BUILD=$d/b VERIF_SEED=$s $d/check/check $p quick 2>&1)
		out="$out $(echo "$o" | grep -q "^VIOLATION" && echo "$o" | sed -n 's/^runs=\([0-9]*\) .*/\1/p' || echo MISS)"
	done
	echo "$id $p$out"
	rm -rf "${d:?}"
}
export -f one; export V W
for id in $ids; do mkdir -p "$W/$id/check"; cp -a $V/check $V/tools $V/sim $V/known-findings.txt "$W/$id/check/"; done
echo $ids | tr ' ' '\n' | xargs -P ${J:-2} -I{} bash -c 'one {}'
rm -rf "${W:?}"
