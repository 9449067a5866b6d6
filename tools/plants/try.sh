#!/bin/bash
# try.sh [ids]: run the check of each planted bug's property against a scratch copy of /repo with the bug; prints caught or MISSED.
cd "$(dirname "$0")/../.." || exit 2
. /opt/vp/env.sh
ids=${*:-$(ls seeded)}
for id in $ids; do
	prop=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
	d=/tmp/try-$id
	rm -rf "$d"; mkdir -p "$d"
	git -C /repo archive HEAD | tar x -C "$d"
	(cd "$d" && git init -q && git apply "$PWD/../../verif/seeded/$id/patch.diff") || { echo "$id does not apply"; continue; }
	for c in ${CHECKS:-$prop}; do
		s=$(date +%s)
		VERIF_SEED=1 VERIF_REPO=$d timeout 900 python3 check.py "$c" > /tmp/try-$id.log 2>&1
		rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" /tmp/try-$id.log; then r=caught; else r="MISSED (rc $rc)"; fi
		echo "$id $c $r $(($(date +%s)-s))s"
	done
	rm -rf "$d" /tmp/try-$id.log
done
