"""C10: results are found again, complete and unchanged, under the right label (scratch directory only)"""
import os, shutil, tempfile, pickle
from pathlib import Path
from gens import *

SCRATCH = os.environ.get("EVOGIL_SCRATCH") or tempfile.mkdtemp(prefix="evogil-c10-")
LABELS = [1, 2, 5, 9, 10, 15, 50, 90, 100, 105, 500, 999, 1000, 1500, 2500, 9500, 10000, 123456]


def tmp():
    os.makedirs(SCRATCH, exist_ok=True)
    return tempfile.mkdtemp(prefix="res-", dir=SCRATCH)


def date(rng):
    return "20%02d-%02d-%02d.%02d%02d%02d.%06d" % (rng.choice([9, 18, 19, 20]), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10 ** 6))


def value(rng):
    d = rng.choice([1, 2, 3])
    return points(rng, rng.randrange(0, 5), d, "float"), points(rng, rng.randrange(0, 5), 2), dict(cost=rng.choice([0, 7, 123.5]), **({"extra": [1, "x"]} if rng.random() < 0.3 else {}))


def same(r, v):
    return r.population == v[0] and r.fitnesses == v[1] and r.additional_data == v[2]


def foreign(rng, d, label):
    k = rng.randrange(9)
    name = ["notes.txt", "%d.generational_distance.pickle" % label, "abc.pickle", "%d.pickle.bak" % label, "x%d.pickle" % label, "%dx.pickle" % label, "-%d.pickle" % label, ".%d.pickle" % label, "%d" % label][k]
    if rng.random() < 0.2:
        os.makedirs(os.path.join(d, "%d.pickle" % (label + 7000000)), exist_ok=True)
    p = os.path.join(d, name)
    if not os.path.exists(p):
        with open(p, "wb") as f:
            f.write(pickle.dumps({"value": 1}) if rng.random() < 0.5 else b"junk")


def c_roundtrip(B):
    Case, sid = B.get("simulation.model:SimulationCase"), B.get("simulation.model:get_simulation_id")
    Ser, Res = B.get("simulation.serializer:Serializer"), B.get("simulation.serializer:Result")
    EX = [(B.get("simulation.serialization:BudgetResultsExtractor"), "budget"), (B.get("simulation.serialization:TimeResultsExtractor"), "time")]
    for _ in B.loop(250, 4000):
        rng = B.rng
        root = tmp()
        try:
            pairs = [(p, a) for p in ("ZDT1", "UF3") for a in ("NSGAII", "HGS+SPEA2", "IMGA+NSGAII")]
            chosen = rng.sample(pairs, rng.choice([1, 2, 3]))
            stored = {}
            log = []
            for p, a in chosen:
                for _ in range(rng.choice([1, 2, 3, 11])):
                    rid, dt = rng.choice([1, 3, 42, 1234567, 9999999]), date(rng)
                    case = Case(p, a, rid, None, root, id=sid(rid, dt))
                    s = Ser(case)
                    key = (p, a, dt, rid)
                    if key in stored:
                        continue
                    stored[key] = {}
                    for lab in rng.sample(LABELS, rng.choice([0, 1, 2, 4])):
                        v = value(rng)
                        good, path = B.run((key, lab), s.store, Res(v[0], v[1], **v[2]), str(lab))
                        if not good:
                            return
                        stored[key][lab] = v
                        log.append((key, lab))
                        back = s.load(str(lab))
                        B.expect(same(back, v), (key, lab), "loaded back %r" % vars(back))
                        if rng.random() < 0.2:
                            # the same result stored once more, with other contents
                            v = value(rng)
                            B.run((key, lab, "again"), s.store, Res(v[0], v[1], **v[2]), str(lab))
                            stored[key][lab] = v
                            B.expect(same(s.load(str(lab)), v), (key, lab), "stored again, loaded back something else")
                        if rng.random() < 0.5:
                            foreign(rng, str(s.path), lab)
                base = os.path.join(root, p, a)
                for f in ("README", "tmp", "2020-01-01.000000.000000", "2020-01-01.000000.000000__12345678", "x2020-01-01.000000.000000__1234567"):
                    if rng.random() < 0.3 and os.path.isdir(base):
                        if f == "README":
                            open(os.path.join(base, f), "w").write("x")
                        else:
                            os.makedirs(os.path.join(base, f), exist_ok=True)
                            foreign(rng, os.path.join(base, f), 100)
                            with open(os.path.join(base, f, "100.pickle"), "wb") as fh:
                                pickle.dump(Res([[0]], [[0]], cost=0), fh)
            B.case(sorted(stored))
            inp = sorted((k, sorted(v)) for k, v in stored.items())
            # every stored result can still be loaded
            for (p, a, dt, rid), m in stored.items():
                s = Ser(Case(p, a, rid, None, root, id=sid(rid, dt)))
                for lab, v in m.items():
                    B.expect(same(s.load(str(lab)), v), (inp, lab), "result overwritten or changed")
            for p, a in chosen:
                if not os.path.isdir(os.path.join(root, p, a)):
                    continue
                runs = sorted((dt, rid) for (pp, aa, dt, rid) in stored if (pp, aa) == (p, a) and os.path.isdir(os.path.join(root, p, a, sid(rid, dt))))
                for X, prop in EX:
                    good, got = B.run(inp, lambda: list(X().load(a, p, root)))
                    if not good:
                        continue
                    labels = [c[prop] for _, c in got]
                    want = sorted({lab for dt, rid in runs for lab in stored[(p, a, dt, rid)]})
                    B.expect(labels == want, inp, "labels %r, stored %r" % (labels, want))
                    for rs, c in got:
                        exp = [(n, dt, rid, stored[(p, a, dt, rid)][c[prop]]) for n, (dt, rid) in enumerate(runs) if c[prop] in stored[(p, a, dt, rid)]]
                        if not B.expect(len(rs) == len(exp), (inp, c), "%d results under the label, %d stored" % (len(rs), len(exp))):
                            continue
                        byrun = {r.run_no: r for r in rs}
                        B.expect(len(byrun) == len(rs), (inp, c), "run numbers %r" % [r.run_no for r in rs])
                        for n, dt, rid, v in exp:
                            r = byrun.get(n)
                            if not B.expect(r is not None, (inp, c), "no result with run number %d" % n):
                                continue
                            B.expect(same(r, v), (inp, c, n), "population, fitnesses or data changed")
                            sc = r.simulation_case
                            B.expect((sc.problem_name, sc.algorithm_name, sc.id, int(sc.run_id)) == (p, a, sid(rid, dt), rid), (inp, c, n), "wrong simulation identity %r" % (sc,))
                            B.expect(r.name == str(c[prop]) and Path(r.path) == Path(root, p, a, sid(rid, dt), "%d.pickle" % c[prop]), (inp, c, n), "wrong name or path %r %r" % (r.name, r.path))
        finally:
            shutil.rmtree(root, ignore_errors=True)


def c_each(B):
    """collecting everything below a results directory"""
    Case, sid = B.get("simulation.model:SimulationCase"), B.get("simulation.model:get_simulation_id")
    Ser, Res = B.get("simulation.serializer:Serializer"), B.get("simulation.serializer:Result")
    each, X = B.get("simulation.serialization:each_result"), B.get("simulation.serialization:BudgetResultsExtractor")
    for _ in B.loop(40, 600):
        root = tmp()
        try:
            want = {}
            for p in B.rng.sample(["ZDT1", "ZDT2", "UF1", "ackley"], 2):
                for a in B.rng.sample(["NSGAII", "IBEA", "HGS+SPEA2"], 2):
                    for _ in range(B.rng.choice([1, 2])):
                        c = Case(p, a, B.rng.randint(1, 99), None, root, id=sid(B.rng.randint(1, 99), date(B.rng)))
                        for lab in B.rng.sample(LABELS, 2):
                            v = value(B.rng)
                            v = ([[0.5] * 3], [[B.rng.random(), B.rng.random()]], v[2])
                            Ser(c).store(Res(v[0], v[1], **v[2]), str(lab))
                            want.setdefault((p, a, lab), []).append(repr(v))
                if B.rng.random() < 0.5:
                    open(os.path.join(root, p, "%s_nondominated" % p), "wb").write(b"x")
            B.case(sorted(want))
            got = {}

            def go():
                for pn, pm, algos in each(X(), root):
                    B.expect(pm.__name__.split(".")[-2] == pn, pn, "wrong problem module")
                    for an, res in algos:
                        labs = []
                        for r in res:
                            B.expect((r["problem"], r["algo"]) == (pn, an), (pn, an), "mislabelled %r" % ((r["problem"], r["algo"]),))
                            labs.append(r["budget"])
                            got.setdefault((pn, an, r["budget"]), []).extend(repr((x.population, x.fitnesses, x.additional_data)) for x in r["results"])
                        B.expect(labs == sorted(labs), labs, "labels not in increasing order")
            good, _ = B.run(sorted(want), go)
            if good:
                B.expect({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}, sorted(want), "collected %r" % sorted(got))
        finally:
            shutil.rmtree(root, ignore_errors=True)


def c_ids(B):
    """identities sort by date and are accepted by the extractor"""
    import re
    sid = B.get("simulation.model:get_simulation_id")
    Case = B.get("simulation.model:SimulationCase")
    pat = r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}"
    for rid in [None, 0, 1, 9, 12, 123456, 1234567, 9999999, "5", "0000042"]:
        i = sid(rid)
        B.case(rid)
        B.expect(re.fullmatch(pat, i) is not None, rid, "identity %r cannot be found again" % i)
        if rid:
            B.expect(int(i.split("__")[1]) == int(rid), rid, "identity %r" % i)
        B.expect(re.fullmatch(pat, Case("p", "a", rid, None, "d").id) is not None, rid, "case identity")
        B.expect(Case("p", "a", rid, None, "d", id="given").id == "given", rid, "given identity ignored")
    prev = ""
    for _ in range(20):
        i = sid(1)
        B.expect(i >= prev, i, "identities do not sort chronologically")
        prev = i


def c_workers(B):
    """what the workers store is collected under the requested labels"""
    import logging, types
    BW, TW = B.opt("simulation.worker:BudgetWorker"), B.opt("simulation.worker:TimeWorker")
    Case = B.get("simulation.model:SimulationCase")
    mod = B.get("algorithms.base.driver:")
    import c09, time as real
    prob = types.SimpleNamespace(fitnesses=[lambda x: x[0], lambda x: -x[0]])
    for _ in B.loop(60, 800):
        root = tmp()
        try:
            kind = B.rng.choice(["budget", "time"])
            clock = [0.0]
            d = c09.mkdriver(B, [2] * 400, [B.rng.choice([0.5, 1.0, 2.5]) for _ in range(400)], clock)
            if kind == "budget":
                bs = sorted(B.rng.sample([3, 10, 20, 100, 150, 300], 3))
                case, W, want = Case("ZDT1", "NSGAII", 3, None, root, budgets=bs), BW, bs
            else:
                st, to = B.rng.choice([1, 2, 3]), B.rng.choice([9, 12, 21])
                case, W = Case("ZDT1", "NSGAII", 3, None, root, timeout=to, sampling_interval=st), TW
                want = [st * (i + 1) for i in range(to // st)]
            if W is None:
                return
            B.case((kind, want))
            saved = mod.time
            mod.time = c09.FakeTime(clock, real)
            try:
                good, _ = B.run((kind, want), W(case, 0).run_driver, d, prob, logging.getLogger("x"))
            finally:
                mod.time = saved
            if not good:
                continue
            X = B.get("simulation.serialization:%sResultsExtractor" % kind.capitalize())
            got = list(X().load("NSGAII", "ZDT1", root))
            B.expect([c[kind] for _, c in got] == want, (kind, want), "labels found %r" % [c[kind] for _, c in got])
            for rs, c in got:
                B.expect(len(rs) == 1 and rs[0].fitnesses == [[f(x) for f in prob.fitnesses] for x in rs[0].population] and "cost" in rs[0].additional_data, (kind, want, c), "fitnesses do not belong to the population")
        finally:
            shutil.rmtree(root, ignore_errors=True)


CHECKS = [("store and collect", c_roundtrip), ("each_result", c_each), ("identities", c_ids), ("workers", c_workers)]
