#!/bin/bash
# Runs each planted bug's check on a scratch copy of /repo with the bug applied.
# usage: trybugs.sh [id-prefix]   (uses /verif/bin/checker; build it with run.sh first)
tmp="$(mktemp -d /tmp/trybugs.XXXXXX)" || exit 1
git clone -q /repo "$tmp/repo" || exit 1
mkdir "$tmp/root"
cp /verif/known-findings.txt "$tmp/root/"
for d in /verif/seeded/${1}*/; do
	id="$(basename "$d")"
	prop="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")"
	git -C "$tmp/repo" checkout -q -- .
	git -C "$tmp/repo" apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
	s=$(date +%s)
	VERIF_REPO="$tmp/repo" VERIF_ROOT="$tmp/root" /verif/bin/checker "$prop" > "$tmp/out" 2>&1
	rc=$?
	echo "$id $prop exit=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION "$tmp/out")"
	[ -n "$SHOW" ] && cut -c1-300 "$tmp/out" | head -8
done
rm -rf "${tmp:?}"
