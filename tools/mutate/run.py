#!/usr/bin/env python3
"""Mutation testing of the checks: run.py MUTS.jsonl OUT.jsonl [FILE-REGEX]
Every mutant that compiles and passes the existing tests goes through all checks with a fraction of their quick runs
(built with an overlay; /repo is not touched). OUT gets one line per mutant: compile, tests, killed <property> <class>, survived."""
import json, os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf
MUTS, OUT = sys.argv[1], sys.argv[2]
RX = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
FRAC = float(os.environ.get("FRAC", "0.06")); J = int(os.environ.get("J", "6"))
ONLY = os.environ.get("PROPS")
W = "/tmp/mutwork"; os.makedirs(W, exist_ok=True)
GO = "/opt/veriftools/go1.26.10"
ENV = dict(os.environ, HOME="/root", PATH=GO + "/bin:" + os.environ["PATH"], GOROOT=GO, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", CGO_ENABLED="0", GOCACHE=W + "/go", GOMAXPROCS="2", VERIF_SEED="1", VERIF_TIER="quick")
QUICK = {}
for f in os.listdir("/verif/sim/props"):
    for m in re.finditer(r'ID: "(C\d+)", Quick: (\d+)', open("/verif/sim/props/" + f).read()): QUICK[m[1]] = int(m[2])
ORDER = {"lineproto": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C25 C16", "nmdc": "C10 C24 C11 C17 C19 C16 C13 C12 C18 C25 C26 C09 C27", "adc": "C14 C24 C15 C17 C19 C16 C18 C12 C25 C26 C09 C27",
         "tiger": "C20 C25 C14 C10 C19 C24", "keyprint": "C21 C22 C16 C27", "tlskp": "C21 C22", "types": "C23 C24 C14 C15"}
TESTS = {"nmdc": ["./nmdc", "."], "adc": ["./adc/...", "."], "types": ["./adc/...", "."], "keyprint": ["./keyprint/..."], "tlskp": ["./keyprint/..."]}
def run(cmd, cwd, env, t):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""
def one(m):
    d = tempfile.mkdtemp(dir=W)
    try:
        src = open(m["file"], "rb").read()
        open(d + "/x.go", "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        json.dump({"Replace": {m["file"]: d + "/x.go"}}, open(d + "/ov.json", "w"))
        ov = json.load(open("/verif/.cache/ov/ov.json")); ov["Replace"][m["file"]] = d + "/x.go"
        json.dump(ov, open(d + "/ov2.json", "w"))
        pkg = os.path.dirname(m["file"])
        rc, o = run(["go", "test", "-overlay", d + "/ov.json", "-vet=off", "-count=1", "-timeout", "40s"] + TESTS.get(os.path.basename(pkg), ["./..."]), "/repo", dict(ENV, GOFLAGS="-mod=mod"), 200)
        if rc: return "compile" if "[build failed]" in o else "tests"
        # one changed file on top of the instrumented tree of the last sim/build.sh
        subprocess.check_call(["/verif/.cache/instr", "/repo", d + "/src", d + "/ov2.json", d + "/fine.json"])
        fine = json.load(open("/verif/.cache/ov/fine.json")); fine["Replace"][m["file"]] = json.load(open(d + "/fine.json"))["Replace"][m["file"]]
        json.dump(fine, open(d + "/fine.json", "w"))
        rc, o = run(["go", "build", "-trimpath=false", "-overlay", d + "/fine.json", "-ldflags=-checklinkname=0", "-o", d + "/vsim", "./cmd/vsim"], "/verif/sim", dict(ENV, GOFLAGS=""), 200)
        if rc: return "simbuild " + o[-300:]
        os.makedirs(d + "/root"); shutil.copy("/verif/known_findings.txt", d + "/root/")
        first = ORDER.get(os.path.basename(pkg), "").split()
        ids = first or sorted(QUICK)
        if ONLY: ids = ONLY.split(",")
        odd = ""
        for i in ids:
            rc, o = run([d + "/vsim", "check", "-prop", i, "-root", d + "/root", "-n", "2", "-runs", str(int(QUICK[i] * FRAC))], d, ENV, 400)
            if rc == 1 and "VIOLATION" in o:
                x = re.search(r"class (\S+)", o)
                return "killed %s %s%s" % (i, x[1] if x else "?", odd)
            if rc != 0: odd += " [%s exit %d: %s]" % (i, rc, o[-300:])
        return "survived" + odd
    finally:
        shutil.rmtree(d, ignore_errors=True)
done = set()
if os.path.exists(OUT): done = {json.loads(l)["id"] for l in open(OUT)}
ms = [json.loads(l) for l in open(MUTS)]
ms = [m for m in ms if m["id"] not in done and (not RX or RX.search(m["file"]))]
out = open(OUT, "a")
B = 300
for k in range(0, len(ms), B):
    with cf.ThreadPoolExecutor(J) as ex:
        for m, r in zip(ms[k:k + B], ex.map(one, ms[k:k + B])):
            m["result"] = r; out.write(json.dumps(m) + "\n"); out.flush()
    # the build cache grows with every mutant
    run(["find", W + "/go", "-type", "f", "-mmin", "+0", "-size", "+200k", "-newer", W + "/mark", "-delete"], "/tmp", ENV, 100) if os.path.exists(W + "/mark") else open(W + "/mark", "w")
