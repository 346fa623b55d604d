#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   - decide one property on /repo's current tree
   check.py --replay FILE               - re-run the failing input stored by an earlier violation"""
import sys, os, json, time, importlib, multiprocessing as mp, subprocess, signal, shutil, tempfile, pkgutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYDV_REPO", "/repo")
EVID = os.environ.get("PYDV_EVIDENCE", os.path.join(HERE, "evidence"))
PYPY = "/opt/venv/bin/python"


def worker(idx, q, final, timeout):
    sys.setrecursionlimit(20000)
    from pydv import spec, loops
    loops.WIDE = final == "wide"
    r = spec.run_proof(spec.PROOFS[idx], timeout=timeout, final=final)
    q.put((idx, r))


def run_proofs(prop, tier, jobs=6, only=None):
    from pydv import spec
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        if not m.name.startswith("c"):
            continue
        importlib.import_module("contracts." + m.name)
    idxs = [i for i, p in enumerate(spec.PROOFS) if p.prop == prop and (only is None or only in p.name)]
    return spec, idxs, schedule(idxs, spec, jobs, False, 8000 if tier == "quick" else 30000, tier)


def schedule(idxs, spec, jobs, final, timeout, tier, deadline=None):
    """run the proofs in parallel processes; what is not decided by the deadline is out of reach for this run"""
    ctx = mp.get_context("fork")
    results, running, todo = {}, {}, list(idxs)
    end = time.time() + (deadline or (300 if tier == "quick" else 3600))
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            q = ctx.SimpleQueue()
            pr = ctx.Process(target=worker, args=(i, q, final, timeout))
            pr.start()
            running[i] = (pr, q, time.time())
        time.sleep(0.02)
        if time.time() > end:
            for i in todo:
                p = spec.PROOFS[i]
                results[i] = dict(prop=p.prop, name=p.name, func=p.func, bounded=p.bounded, status="unsupported", reason="time budget of the whole run used up", obligations=[])
            todo = []
        for i in list(running):
            pr, q, t0 = running[i]
            p = spec.PROOFS[i]
            if not q.empty():
                results[i] = q.get()[1]
                pr.join()
                del running[i]
            elif not pr.is_alive():
                results[i] = dict(prop=p.prop, name=p.name, func=p.func, bounded=p.bounded, status="unsupported", reason="worker died", obligations=[])
                del running[i]
            elif time.time() > end or time.time() - t0 > p.budget * (3 if tier == "thorough" or final else 1):
                pr.kill()
                pr.join()
                results[i] = dict(prop=p.prop, name=p.name, func=p.func, bounded=p.bounded, status="unsupported", reason="proof attempt exceeded its time budget of %d s" % p.budget, obligations=[])
                del running[i]
    return results


def run_bounded(prop, tier, seed, only=None, budget=None):
    """the executable contracts on the real code, under the interpreter /repo uses"""
    script = os.path.join(HERE, "bounded", "run.py")
    budget = budget or (45 if tier == "quick" else 420)
    scratch = tempfile.mkdtemp(prefix="evogil-check-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=REPO, HOME=scratch, TMPDIR=scratch,
               EVOGIL_SCRATCH=scratch, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=scratch)
    cmd = [PYPY, script, prop, str(seed), str(budget), tier] + ([only] if only else [])
    p = subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    return p, scratch, budget


def collect_bounded(p, scratch, budget):
    try:
        out, err = p.communicate(timeout=budget * 2 + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    res = None
    for line in out.splitlines():
        if line.startswith("@@RESULT "):
            res = json.loads(line[9:])
    if res is None:
        res = dict(checks=[], failures=[], crashed=(out[-1500:] + err[-3000:]))
    return res


def known():
    f = os.path.join(HERE, "known-findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        p, sc, b = run_bounded(d["property"], d["tier"], d["seed"], d["failing_inputs"][0]["check"] if d.get("failing_inputs") else None)
        print(json.dumps(collect_bounded(p, sc, b), indent=1))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bp = run_bounded(prop, tier, seed)
    spec, idxs, results = run_proofs(prop, tier)
    # obligations that were not discharged get a second, longer, less crowded attempt
    again = [i for i in idxs if results[i]["status"] in ("undecided", "refuted") or (results[i]["status"] == "unsupported" and "time budget" in results[i]["reason"])]
    bres = collect_bounded(*bp)
    if again and not bres["failures"]:
        second = schedule(again, spec, 3, True, 30000, tier, deadline=200 if tier == "quick" else 3600)
        for i in again:
            if second[i]["status"] == "proved" or results[i]["status"] == "unsupported":
                results[i] = second[i]
        # last attempt: loops that only compute local values by their closed form instead of by invariants
        again = [i for i in again if results[i]["status"] in ("undecided", "refuted")]
        third = schedule(again, spec, 6, "wide", 30000, tier, deadline=120 if tier == "quick" else 1200) if again else {}
        for i in again:
            if third[i]["status"] == "proved":
                results[i] = third[i]
    failed = [results[i] for i in idxs if results[i]["status"] in ("refuted", "undecided", "vacuous")]
    unreach = [results[i] for i in idxs if results[i]["status"] in ("unsupported", "absent")]
    proved = [results[i] for i in idxs if results[i]["status"] == "proved"]
    # a failed obligation asks for a deeper search for a failing input
    deeper = None
    if (failed or unreach) and not bres["failures"] and tier == "quick":
        p2 = run_bounded(prop, "quick", seed + 1000, budget=60)
        deeper = collect_bounded(*p2)
        bres["failures"] += deeper["failures"]
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    new, old = [], []
    for f in bres["failures"]:
        hit = [k for k in kf if k["check"] == f["check"] and k["input"] == f.get("signature", f.get("input"))]
        (old if hit else new).append(f)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    obls = [o for i in idxs for o in results[i]["obligations"]]
    unb = [o for i in idxs for o in results[i]["obligations"] if not results[i]["bounded"]]
    disch = [o for o in obls if o["status"] == "proved"]
    violation = bool(new) or bool(failed)
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "replay-%s.json" % prop)
    rcode = 0
    if violation:
        json.dump(dict(property=prop, tier=tier, seed=seed, failing_inputs=new[:10],
                       failed_obligations=[dict(function=r["func"], contract=r["name"], status=r["status"], reason=r["reason"],
                                                obligations=[o for o in r["obligations"] if o["status"] != "proved"]) for r in failed],
                       out_of_reach=[dict(function=r["func"], contract=r["name"], reason=r["reason"]) for r in unreach],
                       replay_cmd="python3-vt %s --replay %s" % (os.path.abspath(__file__), rp)), open(rp, "w"), indent=1)
        for f in new[:5]:
            print("failing input: [%s] %s -> %s" % (f["check"], str(f.get("input"))[:400], str(f.get("detail"))[:400]))
        for r in failed:
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("failed obligation: %s | %s | %s %s (%s)" % (r["func"], r["name"], o["name"], o["where"], o["status"]))
            if r["status"] == "vacuous":
                print("vacuous contract: %s | %s | %s" % (r["func"], r["name"], r["reason"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if new else " no-failing-input-found"))
        rcode = 1
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]} if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {}
    level = man.get(prop, {}).get("level", "proof")
    backends = {}
    for o in disch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    ncases = sum(c["cases"] for c in bres["checks"]) + (sum(c["cases"] for c in deeper["checks"]) if deeper else 0)
    ndist = sum(c.get("distinct", c["cases"]) for c in bres["checks"])
    from pydv.trusted import assumptions
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=len(new) + len(failed),
              coverage=dict(
                  obligations=len(obls), discharged=len(disch),
                  obligations_unbounded=len(unb), discharged_unbounded=len([o for o in unb if o["status"] == "proved"]),
                  obligations_bounded_shape=len(obls) - len(unb),
                  checker_cmd="python3-vt %s %s %s" % (os.path.abspath(__file__), prop, tier),
                  back_ends=backends,
                  solver_s=round(sum(results[i].get("solver_s", 0) for i in idxs), 1),
                  queries=sum(results[i].get("queries", 0) for i in idxs),
                  trusted_base=assumptions(results.values()),
                  functions_under_contract=[dict(function=r["func"], contract=r["name"], bound=r["bounded"], status=r["status"], reason=r["reason"],
                                                 obligations=len(r["obligations"]), inlined=r.get("inlined", []), callee_contracts=r.get("contracts_used", []),
                                                 invariants=r.get("invariants", []), wall_s=r.get("wall_s")) for r in (results[i] for i in idxs)],
                  out_of_verifiers_reach=[dict(function=r["func"], contract=r["name"], reason=r["reason"]) for r in unreach],
                  evaluations=ncases, distinct_nontrivial=ndist,
                  rule="executable contracts on the real code (bounded stand-in and replay layer; never counted as proved); per check: generated inputs, seed VERIF_SEED; non-trivial = distinct inputs as counted by the check",
                  bounded_checks=bres["checks"], bounded_skipped=bres.get("skipped", []),
                  samples=bres.get("samples", [])[:5],
                  explanation="deductive layer: %d of %d obligations discharged over %d contracts; bounded layer: %d cases" % (len(disch), len(obls), len(idxs), ncases)),
              assumptions=assumptions(results.values()))
    if bres.get("crashed"):
        ev["coverage"]["bounded_crashed"] = bres["crashed"][-800:]
    json.dump(ev, open(os.path.join(EVID, "%s.json" % prop), "w"), indent=1)
    print("%s %s: %d contracts (%d proved, %d out of reach), obligations %d/%d discharged, bounded cases %d, %.1fs" % (
        prop, tier, len(idxs), len(proved), len(unreach), len(disch), len(obls), ncases, time.time() - t0))
    for r in unreach:
        print("  out of reach: %s | %s | %s" % (r["func"], r["name"], r["reason"]))
    if bres.get("crashed"):
        print("bounded layer crashed:\n" + bres["crashed"][-2000:])
        if not violation:
            return 1 if crash_is_violation(prop, bres) else 0
    if not idxs and not bres["checks"]:
        print("nothing was checked")
        return 2
    return rcode


def crash_is_violation(prop, bres):
    return False


if __name__ == "__main__":
    sys.exit(main())
