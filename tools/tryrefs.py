#!/usr/bin/env python3
"""tryrefs.py DEFS.py [group...]: runs every check against groups of edits that keep the behaviour, and reports alarms. The edits come
in through a build overlay; /repo is not touched. FRAC=0.2 sets the share of the quick runs, PROPS="C01 C02" the checks."""
import json, os, re, shutil, subprocess, sys, tempfile, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = "/opt/veriftools/go1.26.10"
ENV = dict(os.environ, HOME="/root", PATH=GO + "/bin:" + os.environ["PATH"], GOROOT=GO, GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off",
           GOSUMDB="off", GOWORK="off", GOFLAGS="", CGO_ENABLED="0", GOCACHE=V + "/.cache/go", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); defs = importlib.util.module_from_spec(spec); spec.loader.exec_module(defs)
frac = float(os.environ.get("FRAC", "0.2"))
props = os.environ.get("PROPS", "").split() or ["C%02d" % i for i in range(1, 28)]
src = "".join(open(f"{V}/sim/props/{f}").read() for f in os.listdir(V + "/sim/props"))
quick = {m[1]: int(m[2]) for m in re.finditer(r'ID: "(C\d\d)", Quick: (\d+)', src)}
subprocess.check_call([V + "/sim/build.sh"])
for g in sys.argv[2:] or sorted(defs.G):
    d = tempfile.mkdtemp(prefix="ref-")
    try:
        files = {}
        for f, old, new in defs.G[g]:
            s = files.get(f) or open("/repo/" + f).read()
            if s.count(old) < 1: sys.exit(f"{g}: {f}: text not found: {old[:80]}")
            files[f] = s.replace(old, new, 1)
        ov = json.load(open(V + "/.cache/ov/ov.json")); plain = {"Replace": {}}
        for f, s in files.items():
            os.makedirs(os.path.dirname(f"{d}/r/{f}"), exist_ok=True); open(f"{d}/r/{f}", "w").write(s)
            ov["Replace"]["/repo/" + f] = plain["Replace"]["/repo/" + f] = f"{d}/r/{f}"
        json.dump(ov, open(d + "/ov.json", "w")); json.dump(plain, open(d + "/plain.json", "w"))
        r = subprocess.run(["go", "test", "-overlay", d + "/plain.json", "./..."], cwd="/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(f"{g}: existing tests {'pass' if r.returncode == 0 else 'FAIL ' + r.stdout[-1500:]}", flush=True)
        subprocess.check_call([V + "/.cache/instr", "/repo", d + "/src", d + "/ov.json", d + "/fine.json"])
        subprocess.check_call(["go", "build", "-trimpath=false", "-overlay", d + "/fine.json", "-ldflags=-checklinkname=0", "-o", d + "/vsim", "./cmd/vsim"], cwd=V + "/sim", env=ENV)
        os.makedirs(d + "/root"); shutil.copy(V + "/known_findings.txt", d + "/root/")
        for p in props:
            n = int(quick[p] * frac)
            r = subprocess.run([d + "/vsim", "check", "-prop", p, "-root", d + "/root", "-runs", str(n)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode: print(f"{g}: {p} ALARM exit {r.returncode}: {r.stdout[-700:]}", flush=True)
        print(f"{g}: done", flush=True)
    finally:
        shutil.rmtree(d)
