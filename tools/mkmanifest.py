#!/usr/bin/env python3
# Writes /verif/MANIFEST.json for the properties the simulator implements.
import json, os, subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
have=subprocess.check_output([V+"/.cache/vsim","list"],text=True).split()
NA={}
NOTE={}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"notes.py")).read())
checks=[]
for i in ids:
    if i in have:
        checks.append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,
          technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences, real code against a reference model",
          level="exploration",level_note=NOTE[i]+" Seeded sampling, not exhaustive; trusts the Go runtime, compress/zlib, x/text and the simulated transport's conformance to the io and net contracts."))
    else:
        pass
m=dict(version=1,setup_cmd="./sim/build.sh",checks=checks,
  not_applicable=[dict(property=i,reason=NA.get(i,"its simulated scenario is not built yet")) for i in ids if i not in have],
  notes="No hooks in /repo: every seam (io.Reader, io.Writer, net.Conn, callbacks, crypto/rand.Reader) already exists. Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt. 'vsim replay FILE' repeats a reported violation.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
