#!/usr/bin/env python3
"""Builds and confirms planted bugs: seed.py DEFS.py [id...]
DEFS.py holds a list BUGS of dicts: id, property, pkg, edits [(file, old, new)], demo (Go test source), needs, breaks.
Everything happens in a scratch copy of /repo; a confirmed bug is written to /verif/seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"], GOROOT="/opt/veriftools/go1.26.10",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Runs the demonstration test inside package %(pkg)s of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
OV=$(mktemp) || exit 2
trap 'rm -f "$OV"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$OV"
command -v go >/dev/null || export PATH=/opt/veriftools/go1.26.10/bin:$PATH
timeout 250 go test -overlay "$OV" -vet=off -count=1 -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def stable(copy):
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], copy)
    ok = set()
    for l in r.stdout.split("\n"):
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and "Test" in e: ok.add(e["Package"] + "/" + e["Test"])
    return ok
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = None
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        copy = tmp + "/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", copy])
            d = tmp + "/out"; os.makedirs(d)
            if base is None: base = stable(copy)
            open(d + "/demo_test.go", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO % b); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = run(["bash", d + "/demo.sh"], copy)
            if r0.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:]); continue
            bad = False
            for f, old, new in b["edits"]:
                p = copy + "/" + f; s = open(p).read()
                if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times in", f, repr(old[:60])); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            run(["gofmt", "-l", "-w"] + [copy + "/" + f for f, _, _ in b["edits"]], copy)
            r = run(["go", "build", "./..."], copy)
            if r.returncode: print(b["id"], "BUILD FAILS\n", r.stdout); continue
            got = stable(copy)
            if base - got: print(b["id"], "TESTS CATCH IT:", sorted(base - got)[:5]); continue
            r1 = run(["bash", d + "/demo.sh"], copy)
            if r1.returncode == 0: print(b["id"], "DEMO PASSES WITH THE BUG"); continue
            diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
            # lines removed must be original ones, not added by fix commits
            open(d + "/patch.diff", "w").write(diff)
            dst = "/verif/seeded/" + b["id"]
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(d, dst)
            print(b["id"], "ok")
        finally:
            shutil.rmtree(tmp)
main()
