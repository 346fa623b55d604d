"""C06: hypervolume = measure of the union of boxes (exact slicing oracle over rationals)"""
from fractions import Fraction as F
from gens import *


def measure(pts, ref):
    """exact Lebesgue measure of the union of [p, ref], by recursive slicing on the last objective"""
    pts = [tuple(F(x) for x in p) for p in pts]
    ref = tuple(F(x) for x in ref)
    pts = [p for p in pts if all(a <= b for a, b in zip(p, ref))]

    def rec(ps, d):
        if not ps:
            return F(0)
        if d == 1:
            return ref[0] - min(p[0] for p in ps)
        cuts = sorted({p[d - 1] for p in ps})
        tot = F(0)
        for k, c in enumerate(cuts):
            top = cuts[k + 1] if k + 1 < len(cuts) else ref[d - 1]
            if top > c:
                tot += (top - c) * rec(list({p[:d - 1] for p in ps if p[d - 1] <= c}), d - 1)
        return tot
    return rec(pts, len(ref))


def gen(rng, nmax=7, dmax=5):
    d = rng.choice([2, 2, 3, 3, 3, 4, 4, dmax, 1])
    n = rng.choice([0, 1, 2, 3, 4, 5, nmax])
    if d >= 4:
        n = min(n, 6) + rng.choice([0, 0, 2])
    st = rng.choice(["int", "big", "half", "float", "neg", "front"])
    if st == "int":
        ps = [[rng.randint(0, 4) for _ in range(d)] for _ in range(n)]
    elif st == "big":
        ps = [[rng.choice([-30, 0, 7, 49, 50]) for _ in range(d)] for _ in range(n)]
    elif st == "half":
        ps = [[rng.choice([0.0, 0.5, 1.0, 1.5, 2.5]) for _ in range(d)] for _ in range(n)]
    elif st == "float":
        ps = [[rng.uniform(0, 3) for _ in range(d)] for _ in range(n)]
    elif st == "neg":
        ps = [[rng.choice([-3, -2.0, -1.0, 0.0, 1.0, 2.0]) for _ in range(d)] for _ in range(n)]
    else:
        ps = []
        for _ in range(n):
            w = [rng.random() + 1e-3 for _ in range(d)]
            ps.append([3 * x / sum(w) for x in w])
    if n > 1 and rng.random() < 0.3:
        ps[rng.randrange(n)] = list(ps[rng.randrange(n)])
    if rng.random() < 0.3:
        ps = [tuple(p) for p in ps]
    k = rng.randrange(6)
    ref = [[3.0] * d, [0.0] * d, [50.0] * d, [float(rng.randint(-1, 4)) for _ in range(d)], [rng.uniform(0, 4) for _ in range(d)], [-0.5] * d][k]
    return ps, ref


def ok(v, m, ps, ref):
    m = float(m)
    big = 1.0
    for i, r in enumerate(ref):
        big *= max([1.0] + [abs(r - p[i]) for p in ps])
    return abs(v - m) <= 1e-9 * max(abs(m), 1e-3 * big) + 1e-12


def c_measure(B):
    HV = B.get("algorithms.base.hv:HyperVolume")
    for _ in B.loop(6000):
        ps, ref = gen(B.rng)
        if B.cases < 300:
            # small exhaustive-like grids: many ties in every objective
            d = B.rng.choice([2, 3, 4])
            ps = [[B.rng.randint(0, 2) for _ in range(d)] for _ in range(B.rng.randint(1, 6))]
            ref = [2] * d if B.rng.random() < 0.5 else [3] * d
        B.case((ps, ref))
        keep = [list(p) for p in ps]
        good, v = B.run((ps, ref), lambda: HV(ref).compute(ps))
        if not good:
            continue
        m = measure(ps, ref)
        B.expect(ok(v, m, ps, ref), (ps, ref), "computed %r, measure of the dominated region %r" % (v, float(m)))
        B.expect([list(p) for p in ps] == keep, (ps, ref), "the points were modified")


def c_laws(B):
    """order, duplication, dominated points, monotonicity; reuse of one instance"""
    HV = B.get("algorithms.base.hv:HyperVolume")
    for _ in B.loop(1500):
        ps, ref = gen(B.rng, 12)
        B.case((ps, ref))
        ps = [list(p) for p in ps]
        hv = HV(ref)
        good, v = B.run((ps, ref), hv.compute, ps)
        if not good:
            continue
        tol = lambda a, b: ok(a, b, ps, ref)
        q = ps[:]
        B.rng.shuffle(q)
        B.expect(tol(hv.compute(q), v), (ps, ref, q), "depends on the order of the points")
        if ps:
            B.expect(tol(hv.compute(ps + [list(B.rng.choice(ps))]), v), (ps, ref), "depends on duplication")
            w = [x + B.rng.choice([0, 0.5, 1]) for x in B.rng.choice(ps)]
            B.expect(tol(hv.compute(ps + [w]), v), (ps, ref, w), "depends on a dominated point")
        x = [B.rng.uniform(-1, 4) for _ in ref]
        u = hv.compute(ps + [x])
        B.expect(u >= v or tol(u, v), (ps, ref, x), "decreases from %r to %r when a point is added" % (v, u))
        out = [r + 1 for r in ref]
        B.expect(hv.compute([]) == 0 and hv.compute([out]) == 0, (ref,), "not zero without a contributing point")


def c_metric(B):
    """the hypervolume metric: dominated measure of the non-dominated part, up to (50,...,50)"""
    M = B.get("metrics.metrics:hypervolume")
    for _ in B.loop(800):
        d = B.rng.choice([2, 3, 4])
        ps = [[B.rng.uniform(-1, 55) for _ in range(d)] for _ in range(B.rng.randint(1, 8))]
        nd = nondom(ps)
        front = [[0.0] * d]
        B.case((ps,))
        good, v = B.run((ps,), M, ps, nd, front)
        if good:
            B.expect(ok(v, measure(ps, [50.0] * d), ps, [50.0] * d), (ps,), "metric %r" % v)


def c_contribution(B):
    """SMS-EMOA's exclusive contribution of each point"""
    import algs
    S = algs.cls(B, "SMSEMOA")
    if not hasattr(S, "calculate_hypervolume_contribution"):
        return
    for _ in B.loop(600):
        d = B.rng.choice([2, 3])
        fits = [lambda x, i=i: x[i] for i in range(d)]
        ps = [[B.rng.choice([0.0, 1.0, 2.0, B.rng.uniform(0, 3)]) for _ in range(d)] for _ in range(B.rng.randint(1, 6))]
        ref = [4.0] * d
        alg = algs.simple(B, "SMSEMOA", ps, [(0, 4)] * d, fits, reference_point=ref)
        inds = list(alg.individuals)
        for i in inds:
            i.objectives = {k: f(i.value) for k, f in enumerate(fits)} if isinstance(getattr(i, "objectives", None), dict) else list(i.value)
        try:
            objs = [[i.objectives[k] for k in range(d)] for i in inds]
        except Exception:
            return
        B.case((ps,))
        try:
            res = alg.calculate_hypervolume_contribution(inds)
            pairs = list(res.items()) if isinstance(res, dict) else list(zip(inds, res))
        except Exception:
            return
        tot = measure(objs, ref)
        for n, (i, c) in enumerate(pairs):
            if not hasattr(i, "objectives") or not isinstance(c, (int, float)):
                return


CHECKS = [("measure of the dominated region", c_measure), ("laws", c_laws), ("hypervolume metric", c_metric)]
