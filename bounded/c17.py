"""C17: cached metrics equal freshly computed ones, on the pool of matching runs (scratch directory only)"""
import os, shutil, tempfile, pickle, types
from pathlib import Path
from gens import *

SCRATCH = os.environ.get("EVOGIL_SCRATCH") or tempfile.mkdtemp(prefix="evogil-c17-")
SLOT = {"gd": "generational_distance", "igd": "inverse_generational_distance", "ahd": "average_hausdorff_distance", "epsilon": "epsilon", "extent": "extent",
        "spacing": "spacing", "ndr": "non_domination_ratio", "hypervolume": "hypervolume"}


def tmp(B=None):
    os.makedirs(SCRATCH, exist_ok=True)
    # the directory the user chose may be called anything
    return tempfile.mkdtemp(prefix="met-" if B is None or B.rng.random() < 0.7 else B.rng.choice(["ZDT1_", "UF3_runs-", "my_ZDT1_old-"]), dir=SCRATCH)


class World:
    """the stored results and what they should say"""

    def __init__(self, B, root):
        self.B, self.root = B, root
        self.Case, self.sid = B.get("simulation.model:SimulationCase"), B.get("simulation.model:get_simulation_id")
        self.Ser, self.Res = B.get("simulation.serializer:Serializer"), B.get("simulation.serializer:Result")
        self.X = B.get("simulation.serialization:BudgetResultsExtractor")
        self.mp = B.get("simulation.metrics_processor:")
        self.metrics = B.get("metrics.metrics:")
        self.data = {}          # (problem, algo) -> {id: {label: fitnesses}}
        self.clock = 0
        self.front = [[i / 4.0, 1 - i / 4.0] for i in range(5)]

    def fits(self):
        rng = self.B.rng
        k = rng.randrange(3)
        n = rng.choice([1, 2, 3, 6])
        if k == 0:
            ps = [[float(rng.randint(0, 3)), float(rng.randint(0, 3))] for _ in range(n)]
        else:
            ps = [[round(rng.uniform(0, 2), 2), round(rng.uniform(0, 2), 2)] for _ in range(n)]
        return ps

    def add(self, p, a, labels, early=False):
        self.clock += 1
        rng = self.B.rng
        when = "20%02d-01-01.000000.%06d" % (10 if early else 20, rng.randrange(500000) if early else self.clock)
        rid = rng.randint(1, 9999999)
        i = self.sid(rid, when)
        s = self.Ser(self.Case(p, a, rid, None, self.root, id=i))
        for l in labels:
            f = self.fits()
            s.store(self.Res([[0.0]] * len(f), [list(x) for x in f], cost=float(rng.randint(0, 900))), str(l))
            self.data.setdefault((p, a), {}).setdefault(i, {})[l] = f
        if self.B.rng.random() < 0.3:
            base = os.path.join(self.root, p, a)
            k = rng.randrange(5)
            if k == 0:
                os.makedirs(os.path.join(base, "0000-tmp"), exist_ok=True)
            elif k == 1:
                open(os.path.join(base, "README"), "w").write("x")
            elif k == 2:
                open(os.path.join(base, i, "notes.txt"), "w").write("x")
            elif k == 3:
                os.makedirs(os.path.join(base, "9999-99"), exist_ok=True)
                with open(os.path.join(base, "9999-99", "100.pickle"), "wb") as fh:
                    pickle.dump(self.Res([[0]], [[-9.0, -9.0]], cost=0), fh)
            else:
                open(os.path.join(self.root, p, "plot.png"), "w").write("x")

    def relabel(self, p, a):
        runs = [(i, m) for i, m in self.data.get((p, a), {}).items() if m]
        if not runs:
            return
        i, m = self.B.rng.choice(runs)
        l = self.B.rng.choice(sorted(m))
        new = self.B.rng.choice([x for x in (50, 100, 200, 300) if x not in m])
        base = os.path.join(self.root, p, a, i)
        os.rename(os.path.join(base, "%d.pickle" % l), os.path.join(base, "%d.pickle" % new))
        for f in os.listdir(base):
            if f.startswith("%d." % l):
                os.remove(os.path.join(base, f))
        m[new] = m.pop(l)

    def replace(self, p, a):
        """the same run again: one result is stored anew, what was computed for the old one is thrown away with it"""
        runs = [(i, m) for i, m in self.data.get((p, a), {}).items() if m]
        if not runs:
            return
        i, m = self.B.rng.choice(runs)
        l = self.B.rng.choice(sorted(m))
        base = os.path.join(self.root, p, a, i)
        for f in os.listdir(base):
            if f.startswith("%d." % l):
                os.remove(os.path.join(base, f))
        f = self.fits() if self.B.rng.random() < 0.5 else [[x + self.B.rng.choice([-0.25, 0.25]) for x in v] for v in m[l]]
        self.Ser(self.Case(p, a, 0, None, self.root, id=i)).store(self.Res([[0.0]] * len(f), [list(x) for x in f], cost=1.0), str(l))
        m[l] = f

    def drop(self, p, a):
        d = self.data.get((p, a), {})
        if len(d) < 2:
            return
        i = self.B.rng.choice(sorted(d))
        shutil.rmtree(os.path.join(self.root, p, a, i))
        del d[i]

    def runno(self, p, a):
        return {i: n for n, i in enumerate(sorted(self.data[(p, a)]))}

    def pool(self, p, label, n):
        ps = []
        for (pp, a), d in self.data.items():
            if pp == p:
                for i, k in self.runno(pp, a).items():
                    if k == n and label in d[i]:
                        ps += [tuple(x) for x in d[i][label]]
        return set(tuple(x) for x in nondom([list(x) for x in set(ps)]))

    def expected(self, slot, fits):
        nd = self.metrics.filter_not_dominated([list(x) for x in fits])
        return getattr(self.metrics, SLOT[slot])(fits, nd, pareto=self.front)

    def ask(self, p, a, hist, only=None):
        B = self.B
        prob = types.SimpleNamespace(pareto_front=self.front, name=p)
        ok, got = B.run(hist, lambda: list(self.X().load(a, p, self.root)))
        if not ok:
            return False
        for rs, c in got:
            label = c["budget"]
            good, groups = B.run((hist, label), lambda: [(n, list(fs)) for n, _, fs in self.mp.yield_metrics(rs, prob)])
            if not good:
                return False
            names = [n for n, _ in groups]
            if not B.expect(set(SLOT) | {"cost", "pdi"} <= set(names) and len(names) == len(set(names)), (hist, label), "metric names %s" % names):
                return False
            if B.rng.random() < 0.5:
                B.rng.shuffle(groups)
            for n, fs in groups:
                if only and n not in only:
                    continue
                if not B.expect(len(fs) == len(rs), (hist, label, n), "%d values for %d results" % (len(fs), len(rs))):
                    return False
                for r, f in zip(rs, fs):
                    good, v = B.run((hist, p, a, label, n), f)
                    if not good:
                        return False
                    fits = self.data[(p, a)][r.simulation_case.id][label]
                    if n == "cost":
                        exp = float(r.additional_data["cost"])
                    elif n == "pdi":
                        pool = self.pool(p, label, r.run_no)
                        mine = set(tuple(x) for x in nondom(fits))
                        exp = len(mine & pool) / len(pool)
                    else:
                        exp = self.expected(n, fits)
                    if not B.expect(close(float(v), float(exp), 1e-9, 1e-12), (hist, p, a, label, r.run_no, n), "%s is %r, freshly computed %r" % (n, v, exp)):
                        return False
        return True


def c_history(B):
    """any sequence of adding, moving and removing results and asking for metrics"""
    for k in B.loop(240, 3000):
        root = tmp(B)
        try:
            w = World(B, root)
            rng = B.rng
            hist = []
            algos = ["NSGAII", "SPEA2", "HGS+IBEA"][: rng.choice([1, 2, 3])]
            probs = ["ZDT1", "UF3"][: rng.choice([1, 1, 2])]
            pairs = [(p, a) for p in probs for a in algos]
            for p, a in pairs:
                for _ in range(rng.choice([1, 2])):
                    w.add(p, a, rng.sample([50, 100, 200], rng.choice([1, 2])))
            ok = True
            for step in range(rng.choice([3, 5, 7])):
                act = rng.choice(["ask", "ask", "ask", "ask pdi", "ask pdi", "add", "add early", "move", "drop", "replace"])
                p, a = rng.choice(pairs)
                hist.append((act, p, a))
                if act.startswith("ask"):
                    ok = w.ask(p, a, list(hist), only=("pdi",) if act == "ask pdi" else None)
                elif act == "add" or act == "add early":
                    w.add(p, a, rng.sample([50, 100, 200], rng.choice([1, 2])), act == "add early")
                    if act == "add early":
                        # run numbers move: results keep their own metrics
                        pass
                elif act == "move":
                    w.relabel(p, a)
                elif act == "replace":
                    w.replace(p, a)
                else:
                    w.drop(p, a)
                if not ok:
                    break
            if ok:
                for p, a in pairs:
                    hist.append(("ask", p, a))
                    if not w.ask(p, a, list(hist)):
                        break
            B.case((k, hist))
        finally:
            shutil.rmtree(root, ignore_errors=True)


def c_params(B):
    """an entry made with other parameters is not returned as if it were the answer"""
    for k in B.loop(300, 2000):
        root = tmp(B)
        try:
            w = World(B, root)
            w.add("ZDT1", "NSGAII", [100])
            (rs, c), = list(w.X().load("NSGAII", "ZDT1", root))
            r = rs[0]
            r.non_dominated_fitnesses = w.metrics.filter_not_dominated(r.fitnesses)
            moved = [list(x) for x in w.front]
            moved[B.rng.randrange(len(moved))][B.rng.randrange(2)] += B.rng.choice([0.5, -0.25, 1.0])
            fronts = [w.front, [[0.0, 1.0], [1.0, 0.0]], [[5.0, 5.0]], moved, [[x + 1.0 for x in p] for p in w.front]]
            names = sorted(SLOT.values())
            m = B.rng.choice(names)
            f = getattr(w.mp, m, None)
            if f is None:
                continue
            first = B.rng.choice(fronts)
            inp = (m, first)
            B.case((inp, r.fitnesses))
            ok, v1 = B.run(inp, f, r, first)
            if not ok:
                continue
            ok, v1b = B.run(inp, f, r, [list(x) for x in first])
            B.expect(ok and close(v1, v1b), inp, "cached %r, fresh %r" % (v1b, v1))
            for other in fronts:
                if other == first:
                    continue
                exp = getattr(w.metrics, m)(r.fitnesses, r.non_dominated_fitnesses, pareto=other)
                try:
                    v2 = f(r, other)
                except Exception:
                    continue
                B.expect(close(v2, exp), (inp, other), "with another reference front: returned %r, its value is %r (entry for the first front: %r)" % (v2, exp, v1))
        finally:
            shutil.rmtree(root, ignore_errors=True)


def c_each(B):
    """the same through the collection of everything below a results directory"""
    each = B.get("simulation.serialization:each_result")
    for k in B.loop(6, 60):
        root = tmp(B)
        try:
            w = World(B, root)
            for a in ("NSGAII", "IBEA"):
                for _ in range(2):
                    w.add("ZDT1", a, [100])
            w.front = [list(x) for x in B.get("problems.ZDT1.problem:pareto_front")]
            seen = {}

            def go():
                for pn, pm, algos in each(w.X(), root):
                    for an, res in algos:
                        for r in res:
                            for n, _, fs in r["analysis"]:
                                seen.setdefault((an, n), []).extend((x.simulation_case.id, x.run_no, f()) for x, f in zip(r["results"], fs))
            for rnd in range(2):
                seen.clear()
                B.case((k, rnd))
                ok, _ = B.run(("each_result", rnd), go)
                if not ok:
                    break
                for (a, n), vs in seen.items():
                    for i, no, v in vs:
                        fits = w.data[("ZDT1", a)][i][100]
                        if n == "pdi":
                            pool = w.pool("ZDT1", 100, no)
                            exp = len(set(tuple(x) for x in nondom(fits)) & pool) / len(pool)
                        elif n == "cost":
                            continue
                        else:
                            exp = w.expected(n, fits)
                        B.expect(close(float(v), float(exp), 1e-9, 1e-12), (a, n, fits, rnd), "%r, freshly computed %r" % (v, exp))
        finally:
            shutil.rmtree(root, ignore_errors=True)


CHECKS = [("histories", c_history), ("changed parameters", c_params), ("each_result", c_each)]
