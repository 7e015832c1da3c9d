#!/usr/bin/env python3
"""Development: turns a planted bug into seeded/<id>, after confirming it in a scratch copy of /repo.

usage: seed.py FILE.py...   each defines: id, prop, edits=[(file, old, new)], demo (Go test source), pkg, needs, breaks
"""
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "21838a0"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# Exits 0 if the property holds in the demonstrated situation, and nonzero otherwise. Runs in the root of the repository.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go" "$t/demo_test.go"
printf '{"Replace": {"%s": "%s"}}' "$PWD/@PKG@/zz_demo_test.go" "$t/demo_test.go" > "$t/overlay.json"
go test @RACE@-vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./@PKG@
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(path):
    s = {}
    exec(open(path).read(), s)
    name = s["id"]
    d = "/tmp/seed/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = []
    try:
        repo = d + "/repo"
        sh(["cp", "-a", "/repo", repo], "/")
        for f, a, b in s["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            if t.count(a) != 1:
                return name, "FAIL edit applies %d times: %s" % (t.count(a), a[:60])
            open(p, "w").write(t.replace(a, b))
        diff = sh(["git", "diff"], repo).stdout
        # at least one removed line must be an original one
        orig = 0
        for f in {f for f, _, _ in s["edits"]}:
            bl = sh(["git", "blame", "-s", f], "/repo").stdout.splitlines()
            hunks = re.split(r"^diff --git ", diff, flags=re.M)
            for h in hunks:
                if not h.startswith("a/%s " % f): continue
                ln = 0
                for l in h.splitlines():
                    m = re.match(r"@@ -(\d+)", l)
                    if m: ln = int(m.group(1)); continue
                    if l.startswith("---") or l.startswith("+++"): continue
                    if l.startswith("-"):
                        if bl[ln-1].startswith("^"): orig += 1
                        ln += 1
                    elif l.startswith(" "): ln += 1
        if orig == 0:
            out.append("NO ORIGINAL LINE REMOVED")
        s_dir = d + "/s"
        os.makedirs(s_dir)
        open(s_dir + "/patch.diff", "w").write(diff)
        pkg = s.get("pkg", ".")
        demo = DEMO.replace("@PKG@/", "" if pkg == "." else pkg + "/").replace("@PKG@", pkg if pkg != "." else "").replace("@RACE@", "-race " if s.get("race") else "")
        open(s_dir + "/demo.sh", "w").write(demo)
        os.chmod(s_dir + "/demo.sh", 0o755)
        open(s_dir + "/demo_test.go", "w").write(s["demo"].lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(s_dir + "/meta.json", "w"), indent=1)
        b = sh(["go", "build", "./..."], repo)
        if b.returncode:
            return name, "FAIL build: " + b.stdout[-500:]
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo).replace("logs=/opt/vp/logs", "logs=" + d + "/logs")
        open(d + "/test.sh", "w").write(t)
        bad = []
        for i in range(2):
            sh(["bash", d + "/test.sh", d + "/o.json"], repo)
            o = json.load(open(d + "/o.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))
            want = set(stable.get("passed") or stable.get("stable") or [])
            got = set(o.get("passed", []))
            if want - got: bad.append(sorted(want - got))
        if bad:
            return name, "FAIL tests: %s" % bad
        res = [sh(["bash", s_dir + "/demo.sh"], repo, timeout=300) for _ in range(2)]
        if any(r.returncode == 0 for r in res):
            return name, "FAIL demo passes with the patch: " + res[0].stdout[-800:]
        if "build failed" in res[0].stdout or "setup failed" in res[0].stdout:
            return name, "FAIL demo does not build: " + res[0].stdout[-1500:]
        ok = [sh(["bash", s_dir + "/demo.sh"], "/repo", timeout=300) for _ in range(4)]
        if any(r.returncode != 0 for r in ok):
            return name, "FAIL demo on the unchanged tree: " + [r for r in ok if r.returncode][0].stdout[-1500:]
        dst = ROOT + "/seeded/" + name
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(s_dir, dst)
        msg = [l for l in res[0].stdout.splitlines() if l.strip()]
        return name, "OK (%d original lines) %s | %s" % (orig, "; ".join(out), " / ".join(msg[:4])[:250])
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(3) as ex:
    for n, m in ex.map(make, sys.argv[1:]):
        print(n, m)
