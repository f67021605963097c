#!/usr/bin/env python3
"""Development helper: turns seeds.py entries into /verif/seeded/<id>/, after confirming that the change passes the
stable tests, that demo.sh fails with it and passes without it.   mkseed.py [--check] ID ..."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MS_REPO", "/repo")  # or a scratch clone of it
DEMO = """#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/home/.config"
export HOME="$t/home" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SCRATCH="$t"
cd "$t" && /opt/venv/bin/python "$d/demo.py"
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests():
    if REPO == "/repo":
        sh("bash", "/opt/vp/test.sh", "/tmp/ms.json")
    else:
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + REPO).replace("/opt/vp/home", "/tmp/ms_home").replace("/opt/vp/reports", "/tmp/ms_reports")
        sh("bash", "-c", t, "test.sh", "/tmp/ms.json")
    r = json.load(open("/tmp/ms.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("tests") or base
    if isinstance(want, dict):
        want = want.get("passed") or list(want)
    got = r.get("passed") or r.get("pass") or []
    return [t for t in want if t not in got]


def one(s, check):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(s["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    if REPO != "/repo":
        os.environ["PYTHONPATH"] = REPO + "/src"
        os.environ["PV_REPO"] = REPO
    assert not sh("git", "-C", REPO, "status", "--short").stdout.strip()
    a = sh("bash", d + "/demo.sh")
    if a.returncode:
        return "demo fails on the unchanged tree: " + a.stdout[-300:] + a.stderr[-600:]
    try:
        for fn, old, new in s["edits"]:
            p = os.path.join(REPO, "src/dispersion", fn)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return "edit does not apply (%d times): %s" % (t.count(old), old[:60])
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        with open(d + "/patch.diff", "w", encoding="utf-8") as f:
            f.write(sh("git", "-C", REPO, "diff").stdout)
        b = sh("bash", d + "/demo.sh")
        if b.returncode == 0:
            return "demo passes with the change"
        bad = tests()
        if bad:
            return "tests fail: %s" % bad
        out = "ok demo: " + (b.stdout + b.stderr).strip().splitlines()[-1][:120]
        if check:
            c = sh("python3-vt", "check.py", s["property"], "quick", cwd=ROOT, env=dict(os.environ, VERIF_SEED="1"))
            out += "\n     check exit %d: %s" % (c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "wall" in l or l.startswith("  ")][:4])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return out
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seeds
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for s in seeds.SEEDS:
        if not ids or s["id"] in ids or s["property"] in ids:
            print(s["id"], one(s, "--check" in sys.argv), flush=True)


if __name__ == "__main__":
    main()
