#!/bin/bash
# Development: runs the check of each planted bug's property against it, and records the result in catches.txt.
# usage: catch.sh [ID...]
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/seeded"
for id in ${*:-$(ls)}; do
	p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
	out=$("$here/tools/mutate.sh" "$id" "$p" < "$id/patch.diff")
	echo "$out"
	case $out in *"VIOLATION property=$p"*) r=caught ;; *) r=missed ;; esac
	touch "$here/tools/catches.txt"
	grep -v "^$id " "$here/tools/catches.txt" > /tmp/catches.$$
	echo "$id $p $r" >> /tmp/catches.$$
	sort /tmp/catches.$$ > "$here/tools/catches.txt"
	rm -f /tmp/catches.$$
done
