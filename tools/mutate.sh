#!/bin/bash
# Development: runs checks against a scratch copy of /repo with a change.
# usage: mutate.sh NAME "PROPS" [CASES] < patch   (or python edits: MUT='file|||old|||new')
here=$(cd "$(dirname "$0")/.." && pwd)
name=$1 props=$2 cases=$3
d=/tmp/mut/$name
rm -rf "$d"; mkdir -p "$d"
cp -a /repo "$d/repo"
if [ -n "$MUT" ]; then
	python3 - "$d/repo" <<'P' || exit 9
import os, sys
f, a, b = os.environ["MUT"].split("|||")
p = os.path.join(sys.argv[1], f)
s = open(p).read()
if s.count(a) < 1: print("MUTATION DOES NOT APPLY:", a); sys.exit(1)
open(p, "w").write(s.replace(a, b, 1))
P
else
	git -C "$d/repo" apply - || exit 9
fi
case $props in *C31*) f=-race ;; esac
VERIF_REPO=$d/repo "$here/build.sh" "$d/vh" $f || exit 8
mkdir -p "$d/out"; cp "$here/known-findings.txt" "$d/out/"
for p in $props; do
	echo "== $name $p: $(VERIF_CASES=$cases timeout 900 "$d/vh" run "$p" quick 1 "$d/out" 2>&1 | grep -v KNOWN | tail -2 | cut -c1-300 | tr '\n' ' ')"
done
[ -n "$KEEP" ] || rm -rf "$d"
