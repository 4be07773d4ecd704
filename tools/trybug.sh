#!/bin/bash
# dev tool: trybug.sh BUGID... -- runs the check of the bug's property against it
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is dirty"; exit 2; }
for b in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
	git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
	s=$(date +%s); bash /verif/check.sh $p > /tmp/trybug.$b 2>&1; rc=$?
	git -C /repo checkout -- .
	echo "$b $p rc=$rc $(($(date +%s)-s))s $(grep -c '^VIOLATION property='$p /tmp/trybug.$b) $(grep -m1 '^VIOLATION' /tmp/trybug.$b)"
done
