"""Runs contracts on the real package (/opt/venv python).  Job on stdin, result on stdout (JSON)."""
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def one(c, rng, given=None):
    """('ok'|'reject'|'fail', harness, label, info)"""
    from pv import vconc
    from pv.api import Reject, Fail
    v = vconc.VConc(rng, given=given, opts=c.opts)
    cwd = os.getcwd()
    try:
        c.fn(v)
        return "ok", v, "", ""
    except Reject:
        return "reject", v, "", ""
    except Fail as e:
        return "fail", v, e.label, e.info
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        return "fail", v, "unexpected exception while observing the result", "%s: %s\n%s" % (type(e).__name__, e, tb)
    finally:
        os.chdir(cwd)
        v.close()


def main():
    job = json.load(sys.stdin)
    tmp = tempfile.mkdtemp(prefix="pvconc")
    os.makedirs(os.path.join(tmp, ".config"))
    os.environ["HOME"] = tmp
    real_out = os.dup(1)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = {}
    try:
        os.chdir(tmp)
        from pv import api
        reg = {c.key: c for c in api.load_contracts()}
        deadline = time.time() + job.get("time", 60)
        for k in job.get("keys", []):
            c = reg[k]
            n = c.opts.get("n", 200) * job.get("mult", 1)
            r = {"runs": 0, "rejected": 0, "checked": 0, "distinct": 0, "failures": [], "samples": [], "stopped": None}
            seen = set()
            labels = set()
            t0 = time.time()
            share = max(1.0, job.get("per", 25.0))
            for i in range(n):
                if time.time() > deadline or time.time() - t0 > share:
                    r["stopped"] = "time"
                    break
                rng = random.Random("%s/%s/%d" % (job.get("seed", 1), k, i))
                st, v, label, info = one(c, rng)
                if st == "reject":
                    r["rejected"] += 1
                    continue
                r["runs"] += 1
                r["checked"] += v.checked
                seen.add(repr(sorted(v.log.items(), key=lambda kv: kv[0])))
                if st == "ok" and len(r["samples"]) < 2:
                    r["samples"].append({a: jsonable(b) for a, b in v.log.items()})
                if st == "fail" and label not in labels:
                    labels.add(label)
                    r["failures"].append({"label": label, "info": info[:1500], "i": i, "how": "generated",
                                          "inputs": {a: jsonable(b) for a, b in v.log.items()}})
                    if len(r["failures"]) >= 5:
                        break
            r["distinct"] = len(seen)
            r["secs"] = time.time() - t0
            out[k] = r
        reps = []
        for rep in job.get("replays", []):
            c = reg[rep["key"]]
            res = None
            t0 = time.time()
            models = []
            if rep.get("model"):
                models.append(rep["model"])
                choices = {a: b for a, b in rep["model"].items() if a in rep.get("choices", [])}
                models += [choices] * rep.get("tries", 150)
            else:
                models += [None] * rep.get("tries", 150)
            for j, m in enumerate(models):
                if time.time() - t0 > rep.get("time", 20) or time.time() > deadline:
                    break
                try:
                    st, v, label, info = one(c, random.Random("replay/%d" % j), given=m)
                except Exception as e:
                    continue
                if st == "fail":
                    res = {"label": label, "info": info[:1500],
                           "how": "counterexample" if j == 0 else "search along the failing path",
                           "inputs": {a: jsonable(b) for a, b in v.log.items()}}
                    break
            reps.append(res)
        out["__replays__"] = reps
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os.dup2(real_out, 1)
    print(json.dumps(out))


if __name__ == "__main__":
    main()
