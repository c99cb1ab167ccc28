#!/usr/bin/env python3
"""trybugs.py [id...]: runs the check of its property against each planted bug. /repo is not touched: the changed files
come in through a build overlay, and the run uses the same binary and run counts as check.sh. PROP=C05 overrides the property,
RUNS=n the number of runs."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = "/opt/veriftools/go1.26.10"
ENV = dict(os.environ, HOME="/root", PATH=GO + "/bin:" + os.environ["PATH"], GOROOT=GO, GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off",
           GOSUMDB="off", GOWORK="off", GOFLAGS="", CGO_ENABLED="0", GOCACHE=V + "/.cache/go", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
subprocess.check_call([V + "/sim/build.sh"])
for b in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    p = os.environ.get("PROP") or json.load(open(f"{V}/seeded/{b}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="try-")
    try:
        diff = f"{V}/seeded/{b}/patch.diff"
        fs = re.findall(r"^\+\+\+ b/(.*)$", open(diff).read(), re.M)
        for f in fs:
            os.makedirs(os.path.dirname(f"{d}/r/{f}"), exist_ok=True); shutil.copy("/repo/" + f, f"{d}/r/{f}")
        subprocess.check_call(["git", "apply", diff], cwd=d + "/r", env=dict(ENV, GIT_CEILING_DIRECTORIES="/"))
        ov = json.load(open(V + "/.cache/ov/ov.json"))
        for f in fs: ov["Replace"]["/repo/" + f] = f"{d}/r/{f}"
        json.dump(ov, open(d + "/ov.json", "w"))
        subprocess.check_call([V + "/.cache/instr", "/repo", d + "/src", d + "/ov.json", d + "/fine.json"])
        subprocess.check_call(["go", "build", "-trimpath=false", "-overlay", d + "/fine.json", "-ldflags=-checklinkname=0", "-o", d + "/vsim", "./cmd/vsim"], cwd=V + "/sim", env=ENV)
        os.makedirs(d + "/root"); shutil.copy(V + "/known_findings.txt", d + "/root/")
        t = time.time()
        cmd = [d + "/vsim", "check", "-prop", p, "-root", d + "/root"] + (["-runs", os.environ["RUNS"]] if "RUNS" in os.environ else [])
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        m = re.search(r"run (\d+) seed .*", r.stdout)
        print(f"{b}: {p} exit {r.returncode} {'caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED'} in {time.time()-t:.0f} s: {(m[0] if m else r.stdout[-200:])[:230]}", flush=True)
    finally:
        shutil.rmtree(d)
