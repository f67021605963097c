#!/usr/bin/env python3
"""Decide one property:  python3-vt check.py C01 [quick|thorough]

Every contract of the property is verified over all paths of the current source of /repo (pv/), then run on the
installed interpreter (cross-check, replay of counterexamples)."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
NPROC = min(8, os.cpu_count() or 8)


def sym_job(arg):
    key, prefix, mode, budget, qt = arg
    import contextlib
    import io
    from pv import api, core, vsym
    c = [c for c in api.REG if c.key == key][0]
    ex = core.Explorer(mode, budget_s=budget, qtimeout_ms=qt, max_paths=c.opts.get("max_paths", 20000))
    t = time.time()
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ex.run(lambda ctx: c.fn(vsym.VSym(ctx, c.opts)), prefix)
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, str(e)[:300]) + "\n" + traceback.format_exc(limit=-5)
    obs = []
    for o in ex.obligations:
        if o.status != "proved":
            obs.append({"label": o.label, "status": o.status, "backend": o.backend, "model": clean(o.model),
                        "why": str(o.why)[:300], "imprecise": bool(o.imprecise)})
    return {"key": key, "prefix": list(prefix), "mode": mode, "paths": ex.paths, "ended": ex.ended,
            "live": ex.precond_ok, "n": len(ex.obligations), "loops": ex.loop_obls,
            "proved": sum(o.status == "proved" for o in ex.obligations), "obs": obs,
            "labels": dict(Counter(o.label for o in ex.obligations if o.status == "proved")),
            "unsupported": ex.unsupported[:5], "stopped": ex.stopped, "errors": ex.errors[:2], "err": err,
            "solver_s": ex.stats.solver_s, "queries": ex.stats.queries, "backends": ex.stats.backends,
            "bounded": sorted(set(map(str, ex.bounded))), "secs": time.time() - t}


def clean(m):
    if not isinstance(m, dict):
        return None
    try:
        return json.loads(json.dumps(m))
    except (TypeError, ValueError):
        out = {}
        for k, v in m.items():
            try:
                out[k] = json.loads(json.dumps(v))
            except (TypeError, ValueError):
                pass
        return out


def merge(rs):
    t = {"paths": 0, "ended": 0, "live": 0, "n": 0, "proved": 0, "loops": 0, "solver_s": 0.0, "queries": 0, "obs": [],
         "unsupported": [], "errors": [], "stopped": [], "backends": Counter(), "labels": Counter(), "bounded": set(),
         "secs": 0.0}
    for r in rs:
        for k in ("paths", "ended", "live", "n", "proved", "loops", "solver_s", "queries", "secs"):
            t[k] += r[k]
        t["obs"] += r["obs"]
        t["unsupported"] += r["unsupported"]
        t["errors"] += r["errors"] + ([r["err"]] if r["err"] else [])
        if r["stopped"]:
            t["stopped"].append(r["stopped"])
        t["backends"].update(r["backends"])
        t["labels"].update(r["labels"])
        t["bounded"] |= set(r["bounded"])
    return t


def concrete(job, seconds):
    job["time"] = seconds
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(job.get("hashseed", 0)), MPLBACKEND="Agg")
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "pv", "concmain.py")], input=json.dumps(job), text=True, env=env,
                           capture_output=True, timeout=seconds + 90)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return json.loads(p.stdout.strip().splitlines()[-1]), ""


def conc_job(a):
    return a[0], concrete(a[1], a[2])


def findings():
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f, encoding="utf-8"):
            if l.startswith("finding: "):
                h, _, what = l[9:].strip().partition(" | ")
                d = dict(x.split("=", 1) for x in h.split())
                d["what"] = what
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    limit = 3000.0 if thorough else 420.0
    qt = 20000 if thorough else 4000
    from pv import api, core, vsym, solve  # noqa: import before forking
    api.load_contracts()
    cs = [c for c in api.REG if c.pid == pid]
    if not cs:
        print("no contracts for", pid)
        return 2
    proofs = [c for c in cs if c.opts.get("kind", "proof") != "concrete"]
    jobs = []
    for c in proofs:
        mode = "bnd" if c.opts.get("kind") == "bounded" else "sym"
        ex = core.Explorer(mode, budget_s=60)
        try:
            pre = ex.probe(lambda ctx: c.fn(vsym.VSym(ctx, c.opts)), depth=c.opts.get("split", 2))
        except BaseException:
            pre = [()]
        b = c.opts.get("budget", 120) * (6 if thorough else 1)
        for p in pre or [()]:
            jobs.append((c.key, p, mode, b, qt))
    mult = 20 if thorough else 1
    cjobs = []
    nh = 3 if not thorough else 6
    for c in cs:
        for h in range(nh):
            cjobs.append(("%s#%d" % (c.key, h),
                          {"keys": [c.key], "seed": seed * 1000 + h, "hashseed": h + 1, "mult": mult,
                           "per": 40.0 if not thorough else 400.0}, 60 if not thorough else 420))
    res, conc, problems = {}, {}, []
    pool = mp.get_context("fork").Pool(NPROC, maxtasksperchild=8)
    try:
        ar = [pool.apply_async(conc_job, (a,)) for a in cjobs]
        sr = [(j, pool.apply_async(sym_job, (j,))) for j in jobs]
        for a in ar:
            k, (r, why) = a.get(timeout=max(5, t0 + limit + 100 - time.time()))
            if r is None:
                problems.append("concrete run %s: %s" % (k, why))
            else:
                for kk, vv in r.items():
                    if kk != "__replays__":
                        conc.setdefault(kk, []).append(vv)
        if any(r["failures"] for rs in conc.values() for r in rs) and not findings():
            limit = min(limit, time.time() - t0 + 45)  # a failing input is at hand: no need for the rest of the proof
        for j, a in sr:
            try:
                r = a.get(timeout=max(0.2, t0 + limit - time.time()))
            except mp.TimeoutError:
                r = {"key": j[0], "prefix": list(j[1]), "mode": j[2], "paths": 0, "ended": 0, "live": 0, "n": 0, "proved": 0,
                     "loops": 0, "obs": [], "labels": {}, "unsupported": [], "stopped": "time", "errors": [], "err": None,
                     "solver_s": 0., "queries": 0, "backends": {}, "bounded": [], "secs": 0.}
            except Exception as e:
                r = {"key": j[0], "prefix": list(j[1]), "mode": j[2], "paths": 0, "ended": 0, "live": 0, "n": 0, "proved": 0,
                     "loops": 0, "obs": [], "labels": {}, "unsupported": ["worker: %r" % (e,)], "stopped": None,
                     "errors": [], "err": repr(e), "solver_s": 0., "queries": 0, "backends": {}, "bounded": [], "secs": 0.}
            res.setdefault(j[0], []).append(r)
        # second line: bounded symbolic run where the unbounded one is undecided
        undec = {k: [r for r in rs if undecided(r)] for k, rs in res.items()}
        fb = []
        for c in proofs:
            if c.opts.get("kind") != "bounded" and undec.get(c.key) and time.time() - t0 < limit - 60 and limit > 400:
                for r in undec[c.key]:
                    fb.append((c.key, pool.apply_async(sym_job, ((c.key, tuple(r["prefix"]), "bnd", 40 if not thorough else 300, qt),))))
        fallback = {}
        for k, a in fb:
            try:
                fallback.setdefault(k, []).append(a.get(timeout=max(1, t0 + limit + 60 - time.time())))
            except Exception as e:
                problems.append("fallback %s: %r" % (k, e))
    finally:
        pool.terminate()
        pool.join()
    tot = {k: merge(rs) for k, rs in res.items()}
    fbt = {k: merge(rs) for k, rs in fallback.items()}

    # ---- candidates for violations
    cand, seen = [], set()
    for src in (tot, fbt):
        for k, t in src.items():
            for o in t["obs"]:
                if o["status"] == "refuted" and (k, o["label"]) not in seen:
                    seen.add((k, o["label"]))
                    cand.append((k, o))
    reports = []
    for k, rs in conc.items():
        for r in rs:
            for f in r["failures"]:
                reports.append({"contract": k, "label": f["label"], "replayed": True, **f})
    if cand:
        reps = []
        for k, o in cand[:24]:
            m = o["model"] or {}
            reps.append({"key": k, "model": m, "choices": [n for n, x in m.items() if isinstance(x, int)],
                         "tries": 200, "time": 12})
        half = (len(reps) + NPROC - 1) // NPROC
        parts = [reps[i:i + half] for i in range(0, len(reps), half)]
        with mp.get_context("fork").Pool(NPROC) as p2:
            outs = p2.map(conc_job, [(str(i), {"replays": q}, 100) for i, q in enumerate(parts)])
        flat = []
        for (i, (r, why)), q in zip(outs, parts):
            flat += (r["__replays__"] if r else [None] * len(q))
        for (k, o), r in zip(cand[:24], flat):
            if r:
                reports.append({"contract": k, "label": o["label"], "replayed": True, **{**r, "failed_check": r["label"], "label": o["label"]},
                                "obligation": o})
            elif not o["imprecise"]:
                reports.append({"contract": k, "label": o["label"], "replayed": False, "obligation": o,
                                "inputs": None, "info": "no failing input found", "how": "verifier"})
            else:
                problems.append("refuted on an over-approximated path, not replayed: %s %s" % (k, o["label"]))
    # refutations without a failing input: definite only when the concrete runs could not contradict them
    known = [f for f in findings() if f.get("property") == pid]
    new, old = [], {}
    for r in reports:
        hit = [f for f in known if f.get("contract") in (None, r["contract"]) and
               f.get("label", "").replace("_", " ") in (r.get("failed_check") or r["label"]) and r["replayed"]]
        if hit:
            old[hit[0]["what"]] = r
        else:
            new.append(r)
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    new.sort(key=lambda r: (not r["replayed"],))
    # ---- evidence
    under, fns = [], set()
    for c in cs:
        fns |= set(c.targets)
        t, fbk = tot.get(c.key), fbt.get(c.key)
        cr = conc.get(c.key, [])
        und = [r for r in res.get(c.key, []) if undecided(r)]
        kind = c.opts.get("kind", "proof")
        if kind == "concrete":
            st = "bounded (executions of the real code)"
        elif kind == "bounded":
            st = "bounded (symbolic values, bounded sizes)" if not und else "bounded (partly executions only)"
        else:
            st = "proved" if t and t["n"] and t["live"] and not und and t["proved"] == t["n"] else "undecided: bounded stand-in"
        under.append({"contract": c.key, "statement": (c.fn.__doc__ or "").strip(), "functions": list(c.targets), "status": st,
                      "obligations": t["n"] if t else 0, "discharged": t["proved"] if t else 0,
                      "paths": t["paths"] if t else 0, "paths_satisfying_preconditions": t["live"] if t else 0,
                      "back_ends": dict(t["backends"]) if t else {}, "solver_s": round(t["solver_s"], 2) if t else 0,
                      "labels": dict(t["labels"].most_common(40)) if t else {},
                      "unsupported": t["unsupported"][:5] if t else [], "stopped": t["stopped"][:3] if t else [],
                      "bounded_fallback": {"obligations": fbk["n"], "discharged": fbk["proved"]} if fbk else None,
                      "executions": {"runs": sum(r["runs"] for r in cr), "rejected": sum(r["rejected"] for r in cr),
                                     "distinct": sum(r["distinct"] for r in cr), "checks": sum(r["checked"] for r in cr)}})
    status = {u["contract"]: u["status"] for u in under}
    proof_keys = [u for u in under if u["status"] == "proved"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level(under),
          "coverage": {
              "obligations": sum(u["obligations"] for u in under), "discharged": sum(u["discharged"] for u in under),
              "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
              "trusted_base": TRUSTED, "functions_under_contract": sorted(fns),
              "contracts": under, "contracts_proved": len(proof_keys), "contracts_total": len(under),
              "solver_s": round(sum(u["solver_s"] for u in under), 2),
              "evaluations": sum(u["executions"]["runs"] for u in under),
              "distinct_nontrivial": sum(u["executions"]["distinct"] for u in under),
              "rule": "contract inputs drawn at random (sizes, magnitudes, literals mined from the source, repeats); "
                      "distinct inputs that satisfy the precondition and reached the checks",
              "samples": [s for c in cs for r in conc.get(c.key, [])[:1] for s in r["samples"][:1]][:6],
              "explanation": "deductive verification by symbolic execution of the rewritten source of /repo; contracts marked "
                             "bounded are not counted as proved"},
          "assumptions": ASSUME + sorted(set(x for t in tot.values() for x in t["bounded"])) + problems,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for u in under:
        print("%-28s %-40s obligations %d/%d paths %d runs %d" % (u["contract"], u["status"], u["discharged"], u["obligations"],
                                                                  u["paths"], u["executions"]["runs"]))
        if os.environ.get("PV_DEBUG"):
            t = tot.get(u["contract"])
            if t:
                print("    secs", round(t["secs"], 1), "max", max(r["secs"] for r in res[u["contract"]]), "unsup", t["unsupported"][:3],
                      "stopped", t["stopped"][:3], "errors", [e[-600:] for e in t["errors"][:1]])
                for l, n in Counter((o["label"], o["status"], o["why"][:80]) for o in t["obs"]).most_common(6):
                    print("    ", n, l)
    for p in problems:
        print("note:", p[:1500])
    print("wall %.1f s" % (time.time() - t0))
    # a check that neither proved nor executed anything decides nothing
    dead = [u["contract"] for u in under if u["status"] != "proved" and u["executions"]["runs"] == 0]
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "tree": os.environ.get("PV_REPO", "/repo"), "violations": new[:10],
                       "how_to_replay": "python3 %s %s" % (os.path.join(ROOT, "replay.py"), path)}, f, indent=1, default=str)
        for r in new[:4]:
            print("  %s: %s | %s | inputs %s" % (r["contract"], r["label"], str(r.get("info"))[:300], str(r.get("inputs"))[:400]))
        tail = "" if any(r["replayed"] for r in new) else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
        return 1
    if dead:
        print("nothing decided for", dead)
        return 3
    return 0


def undecided(r):
    return bool(r["unsupported"] or r["stopped"] or r["err"] or
                any(o["status"] != "proved" and (o["status"] != "refuted" or o["imprecise"]) for o in r["obs"]))


def level(under):
    """proof: every contract discharged without bound; other: some contracts bounded (never counted as proved)"""
    st = [u["status"] for u in under]
    if all(x == "proved" for x in st):
        return "proof"
    if any(x == "proved" or x.startswith("bounded (symbolic") for x in st):
        return "other"
    return "exploration"


TRUSTED = ["pv/ (rewriter, symbolic evaluator and algebraic normaliser of this directory)", "z3 4.x and cvc5 (python3-vt)",
           "CPython semantics of the statements the rewriter keeps",
           "assumed contracts on numpy, scipy, pandas, yaml and the file system (pv/shim_np.py, pv/shims.py, pv/externs.py, "
           "pv/text.py)"]
ASSUME = ["floating-point numbers are treated as real numbers with infinities (rounding of np.round modelled where a contract says so); "
          "float behaviour is cross-checked by executions only",
          "termination is not proved"]

if __name__ == "__main__":
    sys.exit(main())
