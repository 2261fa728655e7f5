#!/bin/bash
# runseed.sh ID...: runs the check of each seeded bug's property against it.
cd /verif || exit 1
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || continue
	s=$(date +%s)
	timeout 900 ./run.sh "$p" >/tmp/seed.$id.log 2>&1; rc=$?
	git -C /repo checkout -q -- .
	echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed.$id.log || tail -1 /tmp/seed.$id.log | cut -c1-200)"
done
