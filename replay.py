#!/usr/bin/env python3
"""python3 replay.py replays/C01.json : re-runs the recorded failing inputs on the real package"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
bad = 0
for v in d["violations"]:
    print(v["contract"], "|", v["label"], "|", v.get("inputs"))
    if not v.get("inputs"):
        print("   no failing input; verifier output:", v.get("obligation"))
        continue
    job = {"keys": [], "replays": [{"key": v["contract"], "model": v["inputs"], "choices": [], "tries": 0}], "time": 100}
    p = subprocess.run(["/opt/venv/bin/python", os.path.join(ROOT, "pv", "concmain.py")], input=json.dumps(job), text=True,
                       capture_output=True)
    r = json.loads(p.stdout.strip().splitlines()[-1])["__replays__"][0]
    print("   ->", "fails: %s %s" % (r["label"], r["info"]) if r else "does not fail")
    bad += bool(r)
sys.exit(1 if bad else 0)
