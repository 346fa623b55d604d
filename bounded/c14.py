"""C14: a selection expands to exactly the requested, independently configured runs"""
import os, copy, types
from gens import *
import algs


def rc(B):
    return B.get("simulation.run_config:")


def mixcase(rng, s):
    return "".join(rng.choice([c.lower(), c.upper(), c]) for c in s)


def args(rng, **over):
    a = {"budget": False, "time": False, "<budget>": None, "<timeout>": None, "<step>": None, "--algo": None, "--problem": None, "-N": "1", "--renice": None, "--dir": None, "-j": "4"}
    a.update(over)
    return a


def c_expand(B):
    F = B.get("simulation.factory:resolve_configuration")
    R = rc(B)
    BW, TW = B.get("simulation.worker:BudgetWorker"), B.get("simulation.worker:TimeWorker")
    default_dir = B.get("simulation.serialization:RESULTS_DIR")
    for _ in B.loop(1500):
        rng = B.rng
        al = rng.choice([None, 1, 2, 5])
        pr = rng.choice([None, 1, 2, 5])
        algo = rng.sample(list(R.algorithms), al) if al else None
        prob = rng.sample(list(R.problems), pr) if pr else None
        n = rng.choice([0, 1, 2, 3, 7]) if (al and pr) else rng.choice([1, 2])
        d = rng.choice([None, "res", "/tmp/x"])
        reni = rng.choice([None, "5"])
        bs = rng.sample([1, 5, 10, 50, 90, 100, 500, 1000, 9500, 20000], rng.choice([1, 2, 4]))
        over = {"--algo": ",".join(mixcase(rng, a) for a in algo) if algo else rng.choice([None, ""]), "--problem": ",".join(mixcase(rng, p) for p in prob) if prob else rng.choice([None, ""]), "-N": str(n), "--dir": d, "--renice": reni}
        kind = rng.choice(["budget", "time"])
        over[kind] = True
        if kind == "budget":
            over["<budget>"] = ",".join(map(str, bs))
        else:
            over["<timeout>"], over["<step>"] = str(rng.choice([10, 3600])), str(rng.choice([1, 7]))
        a = args(rng, **over)
        B.case(a)
        keep = dict(a)
        ka, kp = list(R.algorithms), list(R.problems)
        good, res = B.run(a, F, a)
        if not good:
            continue
        W, sims = res
        B.expect(W is (BW if kind == "budget" else TW), a, "worker %r" % W)
        want = {(p, x): n for p in (prob or R.problems) for x in (algo or R.algorithms)} if n else {}
        got = {}
        for s in sims:
            got[(s.problem_name, s.algorithm_name)] = got.get((s.problem_name, s.algorithm_name), 0) + 1
        B.expect(got == want, a, lambda: "simulations %r, expected %r" % (sorted(set(got.items()) - set(want.items()))[:5], sorted(set(want.items()) - set(got.items()))[:5]))
        for s in sims[:: max(1, len(sims) // 20)]:
            B.expect(s.results_dir == (d or default_dir), a, "results directory %r" % s.results_dir)
            B.expect(s.renice == reni, a, "renice %r" % s.renice)
            if kind == "budget":
                B.expect(s.params == {"budgets": sorted(bs)} and all(type(x) is int for x in s.params["budgets"]), a, "params %r" % s.params)
                B.expect(list(W(s, 0).budgets) == sorted(bs), a, "budgets of the worker %r" % W(s, 0).budgets)
            else:
                B.expect(s.params == {"timeout": int(a["<timeout>"]), "sampling_interval": int(a["<step>"])}, a, "params %r" % s.params)
        runs = {}
        for s in sims:
            runs.setdefault((s.problem_name, s.algorithm_name), []).append(s.run_id)
        B.expect(all(len(set(v)) == len(v) for v in runs.values()), a, "repeated runs share a number")
        B.expect(len({id(s) for s in sims}) == len(sims), a, "runs share one object")
        B.expect(a == keep and list(R.algorithms) == ka and list(R.problems) == kp, a, "arguments or configuration changed")


def c_unknown(B):
    """names that are not offered select nothing; a part of a name does not match"""
    F = B.get("simulation.factory:resolve_configuration")
    R = rc(B)
    for a, p, n in [("SPEA", None, 0), ("GAII", None, 0), (None, "ZDT", 0), (None, "UF", 0), ("SPEA2,nothing", "ZDT1", 1), ("HGS", "ZDT1", 0), ("hgs+spea2", "zdt1", 1), ("SPEA2,SPEA2", "ZDT1,zdt1", 1), ("NSGAII", "UF1", 1), ("IMGA+NSGAII", "uf1,uf10", None)]:
        x = args(B.rng, **{"budget": True, "<budget>": "100", "--algo": a, "--problem": p})
        B.case((a, p))
        good, res = B.run((a, p), F, x)
        if good and n is not None:
            B.expect(len(res[1]) == n, (a, p), "%d simulations, expected %d" % (len(res[1]), n))
        if good and n is None:
            B.expect({s.algorithm_name for s in res[1]} == {"IMGA+NSGAII"}, (a, p), "algorithms %r" % {s.algorithm_name for s in res[1]})


def c_cli(B):
    """the documented command line"""
    import ast
    try:
        from docopt import docopt
        doc = ast.get_docstring(ast.parse(open("evogil.py").read()), clean=False)
    except Exception:
        return
    F = B.get("simulation.factory:resolve_configuration")
    for line, n, params in [
        (["run", "budget", "500,100,1000", "-a", "nsgaii", "-p", "zdt1,UF2", "-N", "3"], 6, {"budgets": [100, 500, 1000]}),
        (["run", "time", "--timeout", "60", "--step", "5", "-a", "HGS+SPEA2,ibea", "-p", "ZDT6"], 2, {"timeout": 60, "sampling_interval": 5}),
        (["run", "time", "-t", "60", "-s", "5", "-a", "SPEA2", "-p", "ZDT6", "-N", "2"], 2, {"timeout": 60, "sampling_interval": 5}),
        (["run", "budget", "40", "-p", "ZDT1"], len(rc(B).algorithms), {"budgets": [40]}),
        (["run", "budget", "40", "-a", "SPEA2"], len(rc(B).problems), {"budgets": [40]}),
    ]:
        B.case(line)
        try:
            a = docopt(doc, argv=line)
        except SystemExit:
            continue
        good, res = B.run(line, F, a)
        if good:
            B.expect(len(res[1]) == n and all(s.params == params for s in res[1]), line, "%d simulations, params %r" % (len(res[1]), res[1][0].params if res[1] else None))


def bound(B, p, prob, algo, inner=False):
    """what a prepared factory binds"""
    import importlib
    R = rc(B)
    inp = (algo, prob)
    names = algo.split("+")
    pm = importlib.import_module("problems.%s.problem" % prob)
    cls = importlib.import_module(R.custom_paths[names[0]][0] if names[0] in R.custom_paths else "algorithms.%s.%s" % (names[0], names[0]))
    cls = getattr(cls, R.custom_paths[names[0]][1] if names[0] in R.custom_paths else names[0])
    if not hasattr(p, "keywords"):
        return
    kw = p.keywords
    B.expect(p.func is cls, inp, "class %r" % p.func)
    B.expect(list(kw["dims"]) == list(pm.dims) and list(kw["fitnesses"]) == list(pm.fitnesses), inp, "bounds or objectives of another problem")
    pop = kw["population"]
    B.expect(len(pop) == R.DEFAULT_POPULATION_SIZE and all(within(x, pm.dims) for x in pop), inp, "initial population of %d, or outside the bounds" % len(pop))
    if len(names) > 1:
        import importlib
        ad = getattr(importlib.import_module("algorithms.%s.message" % names[1]), "%s%sMessageAdapter" % (names[1], names[0]))
        B.expect(kw.get("driver_message_adapter_factory") is ad, inp, "adapter %r" % kw.get("driver_message_adapter_factory"))
        bound(B, kw["driver"], prob, "+".join(names[1:]), True)
    else:
        B.expect("driver" not in kw, inp, "a plain algorithm got an inner one")
    return kw


def snapshot(B):
    import importlib
    R = rc(B)
    s = [repr(R.algo_base), repr(R.cust_base), repr(R.algorithms), repr(R.problems), repr(R.custom_paths), R.DEFAULT_POPULATION_SIZE]
    for p in R.problems:
        m = importlib.import_module("problems.%s.problem" % p)
        s.append((repr(m.dims), len(m.fitnesses), len(m.pareto_front)))
    return s


def c_prepare(B):
    P = B.get("simulation.factory:prepare")
    R = rc(B)
    s0 = snapshot(B)
    todo = [(a, B.rng.choice(R.problems)) for a in R.algorithms]
    B.rng.shuffle(todo)
    prev = None
    for a, p in todo:
        if not B.more():
            return
        B.case((a, p))
        good, r = B.run((a, p), P, a, p)
        if not good:
            continue
        kw = bound(B, r[0], p, a)
        B.expect(r[1].__name__ == "problems.%s.problem" % p, (a, p), "module %r" % r[1])
        base = R.algo_base.get(a.split("+")[0], {})
        if kw:
            for k, v in base.items():
                if k not in ("population",) and ("init_alg___" + a.split("+")[0]) and not any(isinstance(x, tuple) for x in R.algo_base):
                    B.expect(k in kw and kw[k] == v, (a, p), "setting %s = %r, configured %r" % (k, kw.get(k), v))
            pop = kw["population"]
            B.expect(prev is None or prev is not pop and not ({id(x) for x in prev} & {id(x) for x in pop}), (a, p), "two simulations share their initial population")
            prev = pop
    B.expect(snapshot(B) == s0, "prepare all", "preparing changed the configuration")


def c_override(B):
    """more specific configuration overrides more general"""
    P = B.get("simulation.factory:prepare")
    R = rc(B)
    ab, cb = dict(R.algo_base), dict(R.cust_base)
    for _ in B.loop(150, 1500):
        meta, inner, prob = B.rng.choice(["HGS", "IMGA"]), B.rng.choice(["SPEA2", "NSGAII"]), B.rng.choice(["ZDT1", "UF1"])
        other = "UF2"
        on = {k: B.rng.random() < 0.6 for k in ("a", "as", "ap", "asp", "i", "is", "ip", "isp", "in", "inp")}
        mk = lambda k: {"m_" + k: k}
        R.algo_base, R.cust_base = copy.deepcopy(ab), copy.deepcopy(cb)
        try:
            fam = [("a", R.algo_base, meta), ("as", R.algo_base, (meta, (inner,))), ("ap", R.cust_base, (meta, prob)), ("asp", R.cust_base, (meta, inner, prob))]
            added = []
            for k, d, key in fam:
                if on[k]:
                    d[key] = dict(d.get(key, {}), x_general=k, **mk(k))
            if on["in"]:
                R.algo_base[inner] = dict(R.algo_base.get(inner, {}), y="in")
            if on["inp"]:
                R.cust_base[(inner, prob)] = dict(y="inp")
            R.cust_base[(meta, other)] = dict(z="other problem")
            names = {"i": "init_alg___%s" % meta, "is": "init_alg___%s__%s" % (meta, inner), "ip": "init_alg___%s____%s" % (meta, prob), "isp": "init_alg___%s__%s____%s" % (meta, inner, prob)}
            orig = getattr(R, names["i"])
            for k in ("i", "is", "ip", "isp"):
                if on[k]:
                    def f(config, pm, k=k):
                        if k == "i":
                            orig(config, pm)
                        config.update({"w": k, "n_" + k: k})
                    setattr(R, names[k], f)
            inp = (meta, inner, prob, sorted(k for k in on if on[k]))
            B.case(inp)
            good, r = B.run(inp, P, meta + "+" + inner, prob)
            if not good or not hasattr(r[0], "keywords"):
                continue
            kw = r[0].keywords
            B.expect(all(kw.get("m_" + k) == k for k in ("a", "as", "ap", "asp") if on[k]), inp, "a configuration layer was not applied")
            B.expect(all(kw.get("n_" + k) == k for k in ("i", "is", "ip", "isp") if on[k]), inp, "a custom initialisation was not applied")
            gen = kw.get("x_general")
            above = {"a": {"as", "ap", "asp"}, "as": {"asp"}, "ap": {"asp"}, "asp": set()}
            if gen:
                B.expect(not any(on[k] for k in above[gen]), inp, "the value of layer %r won" % gen)
            w = kw.get("w")
            abv = {"i": {"is", "ip", "isp"}, "is": {"isp"}, "ip": {"isp"}, "isp": set()}
            if w:
                B.expect(not any(on[k] for k in abv[w]), inp, "the value of initialisation %r won" % w)
            y = kw["driver"].keywords.get("y")
            B.expect(y == ("inp" if on["inp"] else "in" if on["in"] else None), inp, "inner algorithm got %r" % y)
            B.expect("z" not in kw, inp, "configuration of another problem was applied")
            B.expect(not any(k.startswith(("m_", "n_")) for k in kw["driver"].keywords), inp, "the inner algorithm got the outer one's configuration")
        finally:
            R.algo_base, R.cust_base = ab, cb
            for k, n in names.items():
                if k == "i":
                    setattr(R, n, orig)
                elif hasattr(R, n):
                    delattr(R, n)


def c_isolated(B):
    """running one simulation does not change the configuration of another"""
    P = B.get("simulation.factory:prepare")
    R = rc(B)
    s0 = snapshot(B)
    for a, p, n in [("HGS+NSGAII", "ZDT1", 2), ("SPEA2", "ZDT2", 2), ("OMOPSO", "ZDT1", 2), ("IBEA", "UF1", 1), ("NSGAII", "ZDT4", 2), ("SMSEMOA", "ZDT6", 1), ("JGBL", "UF2", 1), ("NSGAIII", "ZDT1", 1), ("HGS+SPEA2", "UF1", 1)]:
        if not B.more():
            return
        B.case((a, p))
        try:
            f1, _ = P(a, p)
            f2, _ = P(a, p)
        except Exception as ex:
            B.fail((a, p), "raised %r" % ex)
            continue
        k2 = repr({k: v for k, v in f2.keywords.items() if k not in ("driver", "fitnesses", "driver_message_adapter_factory")}) if hasattr(f2, "keywords") else None

        def go():
            d = f1()
            for _ in range(n):
                d.next_step()
            h = getattr(d, "hgs", None)
            if h is not None and hasattr(h, "revive_root") and hasattr(h, "nodes"):
                for x in h.nodes:
                    x.alive = False
                h.revive_root()
        good, _ = B.run((a, p), go)
        if k2 is not None:
            B.expect(repr({k: v for k, v in f2.keywords.items() if k not in ("driver", "fitnesses", "driver_message_adapter_factory")}) == k2, (a, p), "the other simulation's settings changed")
        B.expect(snapshot(B) == s0, (a, p), "running changed the configuration")


def c_layers(B):
    """the entry looked up for an algorithm is the one for its whole chain of inner algorithms, at every position of the chain"""
    import inspect
    R = rc(B)
    LP, LA = B.opt("simulation.factory:load_problem_config"), B.opt("simulation.factory:load_algorithm_with_subdrivers_config")
    ab, cb = dict(R.algo_base), dict(R.cust_base)
    sig = lambda f: list(inspect.signature(f).parameters)
    for _ in B.loop(150, 1500):
        chain = B.rng.sample(["A", "B", "C", "D"], B.rng.choice([1, 2, 3, 4]))
        pos = B.rng.randrange(len(chain))
        algo, inner = chain[pos], chain[pos + 1:]
        try:
            R.algo_base, R.cust_base = {}, {}
            for k in range(len(inner) + 1):
                R.cust_base[(algo, *inner[:k], "p")] = {"v": tuple(inner[:k]), "k%d" % k: 1}
                R.algo_base[(algo, tuple(inner[:k]))] = {"v": tuple(inner[:k]), "k%d" % k: 1}
            want = {"v": tuple(inner), "k%d" % len(inner): 1}
            inp = (chain, pos)
            B.case(inp)
            if LP and sig(LP) == ["algo", "problem", "config", "all_drivers", "driver_pos"]:
                c = {}
                ok, _r = B.run(inp, LP, algo, "p", c, chain, pos)
                B.expect(not ok or c == want, inp, "per-problem entry: %r, expected %r" % (c, want))
            if LA and sig(LA) == ["algo", "all_drivers", "driver_pos", "config"]:
                c = {}
                ok, _r = B.run(inp, LA, algo, chain, pos, c)
                B.expect(not ok or c == want, inp, "entry of the combination: %r, expected %r" % (c, want))
        finally:
            R.algo_base, R.cust_base = ab, cb


def c_run(B):
    """a worker runs what was prepared for the names of its simulation, and hands back its results under its number"""
    import inspect, types, random, logging
    W, mod = B.get("simulation.worker:SimulationWorker"), B.get("simulation.worker:")
    fac, Case = B.get("simulation.factory:"), B.get("simulation.model:SimulationCase")
    if not hasattr(W, "run_driver") or getattr(mod, "factory", None) is not fac or not hasattr(mod, "log_helper"):
        return
    names = list(inspect.signature(fac.prepare).parameters)[:2]
    state, off = random.getstate(), logging.root.manager.disable
    saved = fac.prepare, mod.log_helper
    mod.log_helper = types.SimpleNamespace(init=lambda: None)
    logging.disable(logging.CRITICAL)
    try:
        for _ in B.loop(60, 300):
            problem, algo, no = B.rng.choice(["ZDT1", "UF3", "x"]), B.rng.choice(["NSGAII", "HGS+SPEA2", "y"]), B.rng.randrange(50)
            fails = B.rng.choice([None, None, None, "run", "prepare"])
            log, res, pm = [], [(1, [[0.5]])], types.ModuleType("problem")

            class Driver:
                def shutdown(self):
                    log.append(("shutdown", self))

            def prepare(*a, **kw):
                got = dict(zip(names, a))
                got.update(kw)
                log.append(("prepare", [got.get(n) for n in names]))
                if fails == "prepare":
                    raise KeyError(algo)

                def final(*a, **kw):
                    d = Driver()
                    log.append(("made", d))
                    return d
                return final, pm

            class Worker(W):
                def run_driver(self, driver, problem_mod, logger):
                    log.append(("run", driver, problem_mod))
                    if fails == "run":
                        raise ValueError("stopped")
                    return res
            fac.prepare = prepare
            sim = Case(problem, algo, 1, None, "results", budgets=[1])
            inp = (problem, algo, no, fails)
            B.case(inp)
            ok, out = B.run(inp, Worker(sim, no).run)
            if not ok:
                continue
            kinds = [x[0] for x in log]
            if not kinds:       # the stand-in is not what it uses
                return
            B.expect(kinds[:1] == ["prepare"] and kinds.count("prepare") == 1 and log[0][1] == [algo, problem], inp, "prepared %r" % (log[:1],))
            made = [x[1] for x in log if x[0] == "made"]
            B.expect(len(made) == (0 if fails == "prepare" else 1), inp, "%d drivers made" % len(made))
            B.expect([x[1:] for x in log if x[0] == "run"] == [(d, pm) for d in made], inp, "ran %r" % log)
            B.expect([x[1] for x in log if x[0] == "shutdown"] == made and (not made or kinds[-1] == "shutdown"), inp, "shut down %r" % log)
            if fails:
                B.expect(out is None, inp, "a run that failed returned %r" % (out,))
            else:
                B.expect(isinstance(out, tuple) and len(out) == 3 and out[0] is res and out[1] >= 0 and out[2] == no, inp, "returned %r" % (out,))
    finally:
        fac.prepare, mod.log_helper = saved
        logging.disable(off)
        random.setstate(state)


def c_parallel(B):
    """every simulation of a run is carried out once, whether or not another one fails"""
    import types, logging, random, contextlib, io
    mod, Case = B.get("simulation.run_parallel:"), B.get("simulation.model:SimulationCase")
    fac = B.get("simulation.factory:")
    if not all(hasattr(mod, x) for x in ("run_parallel", "ActorSystem", "rxtools")) or getattr(mod, "factory", None) is not fac:
        return
    saved, state, off = (fac.resolve_configuration, mod.ActorSystem, mod.rxtools), random.getstate(), logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    mod.ActorSystem = lambda *a, **k: types.SimpleNamespace(shutdown=lambda: None)
    mod.rxtools = types.SimpleNamespace(configure_default_executor=lambda n: None, shutdown_default_executor=lambda: None)
    try:
        for _ in B.loop(60, 300):
            n = B.rng.choice([1, 2, 3, 8])
            cases = [Case(B.rng.choice(["ZDT1", "UF3"]), B.rng.choice(["NSGAII", "SPEA2"]), i, None, "results", budgets=[1]) for i in range(n)]
            share = B.rng.choice([0, 0, 0.3, 1])
            bad = {c.run_id for c in cases if B.rng.random() < share}
            ran, numbers = [], []

            class Worker:
                def __init__(self, simulation, simulation_no):
                    self.simulation, self.simulation_no = simulation, simulation_no

                def run(self):
                    ran.append(self.simulation.run_id)
                    numbers.append(self.simulation_no)
                    return None if self.simulation.run_id in bad else ([(1, [])], 0.5, self.simulation_no)
            used = []
            fac.resolve_configuration = lambda args: used.append(1) or (Worker, list(cases))
            inp = (n, sorted(bad))
            B.case(inp)
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    mod.run_parallel({"-j": "1", "-N": "1"})
                    ex = None
                except Exception as e:
                    ex = e
            if not used:        # the stand-in is not what it uses
                return
            B.expect(ex is None, inp, "raised %r" % ex)
            ok = ex is None
            B.expect(not ok or sorted(ran) == list(range(n)), inp, "ran %r of %d simulations" % (ran, n))
            B.expect(not ok or sorted(numbers) == list(range(n)), inp, "numbered %r" % numbers)
    finally:
        fac.resolve_configuration, mod.ActorSystem, mod.rxtools = saved
        logging.disable(off)
        random.setstate(state)


CHECKS = [("expansion", c_expand), ("names", c_unknown), ("command line", c_cli), ("preparation", c_prepare), ("overriding", c_override), ("isolation", c_isolated), ("layers of longer chains", c_layers), ("workers", c_run), ("all simulations", c_parallel)]
