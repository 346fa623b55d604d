"""C07: quality indicators equal their definitions"""
from gens import *


def mind(p, qs):
    return min(sum((a - b) ** 2 for a, b in zip(p, q)) for q in qs)


def gd(a, b):
    return math.sqrt(sum(mind(p, b) for p in a) / len(a))


def sets(B, nmax=8):
    rng = B.rng
    d = rng.choice([1, 2, 2, 2, 3, 3, 4])
    st = rng.choice(["int", "half", "float", "neg", "float"])
    a = points(rng, rng.choice([1, 1, 2, 3, 5, nmax]), d, st)
    b = points(rng, rng.choice([1, 1, 2, 3, 5, nmax]), d, st)
    k = rng.randrange(8)
    if k == 0:
        a = [list(rng.choice(b)) for _ in range(rng.randint(1, 5))]
    if k == 1:
        b = [list(x) for x in b] + [list(x) for x in a]
    if k == 2:
        a = [list(x) for x in a] + [list(x) for x in b]
    if k == 3:
        a = [tuple(x) for x in a]
        b = [tuple(x) for x in b]
    return a, b


def schott(s):
    if len(s) < 2:
        return 0.0
    m = [min(sum(abs(a - b) for a, b in zip(p, q)) for j, q in enumerate(s) if j != i) for i, p in enumerate(s)]
    mu = sum(m) / len(m)
    return math.sqrt(sum((x - mu) ** 2 for x in m) / (len(s) - 1))


DEFS = {
    "generational_distance": lambda s, nd, p: gd(nd, p),
    "inverse_generational_distance": lambda s, nd, p: gd(p, s),
    "average_hausdorff_distance": lambda s, nd, p: max(gd(nd, p), gd(p, s)),
    "epsilon": lambda s, nd, p: max(min(max(pk - sk for pk, sk in zip(pj, si)) for pj in p) for si in nd),
    "extent": lambda s, nd, p: math.sqrt(sum(max(x[i] for x in s) - min(x[i] for x in s) for i in range(len(s[0])))),
    "spacing": lambda s, nd, p: schott(nd),
    "non_domination_ratio": lambda s, nd, p: len(nd) / len(s),
}


def mk(name):
    def check(B):
        f = B.get("metrics.metrics:" + name)
        for _ in B.loop(2500):
            s, p = sets(B)
            nd = nondom(s)
            B.case((s, p))
            ks, kp, kn = repr(s), repr(p), repr(nd)
            good, v = B.run((s, p), f, s, nd, p)
            if not good:
                continue
            want = DEFS[name](s, nd, p)
            B.expect(close(v, want, 1e-8, 1e-7 if name == "spacing" else 1e-9), (s, p), "%s = %r, definition gives %r" % (name, v, want))
            if name in ("generational_distance", "inverse_generational_distance", "average_hausdorff_distance", "extent", "spacing"):
                B.expect(v >= 0, (s, p), "negative")
            if name == "non_domination_ratio":
                B.expect(0 <= v <= 1, (s, p), "outside [0,1]")
            if name == "generational_distance" and all(list(x) in [list(y) for y in p] for x in nd):
                B.expect(v == 0, (s, p), "not zero on the reference set")
            B.expect((repr(s), repr(p), repr(nd)) == (ks, kp, kn), (s, p), "arguments modified")
    return check


def c_utils(B):
    """the functions of metrics_utils that runs and statistics use directly"""
    U = lambda n: B.opt("metrics.metrics_utils:" + n)
    table = {
        "generational_distance": lambda s, p: gd(s, p),
        "inverse_generational_distance": lambda s, p: gd(p, s),
        "distance": lambda s, p: gd(s, p),
        "distance_from_pareto": lambda s, p: sum(math.sqrt(mind(x, p)) for x in s) / len(s),
    }
    one = {"extent": lambda s: DEFS["extent"](s, s, s), "spacing": schott}
    for _ in B.loop(2500):
        s, p = sets(B)
        B.case((s, p))
        for n, d in table.items():
            if U(n):
                good, v = B.run((n, s, p), U(n), s, p)
                if good:
                    B.expect(close(v, d(s, p), 1e-8), (n, s, p), "%s = %r, definition gives %r" % (n, v, d(s, p)))
        for n, d in one.items():
            if U(n):
                good, v = B.run((n, s), U(n), s)
                if good:
                    B.expect(close(v, d(s), 1e-8, 1e-7), (n, s), "%s = %r, definition gives %r" % (n, v, d(s)))
        if U("euclid_distance"):
            B.expect(close(U("euclid_distance")(s[0], p[0]), math.sqrt(sum((a - b) ** 2 for a, b in zip(s[0], p[0])))), (s[0], p[0]), "euclid_distance")
        if U("euclid_sqr_distance"):
            B.expect(close(U("euclid_sqr_distance")(s[0], p[0]), sum((a - b) ** 2 for a, b in zip(s[0], p[0]))), (s[0], p[0]), "euclid_sqr_distance")
        if U("non_domination_ratio"):
            nd = nondom(s)
            B.expect(close(U("non_domination_ratio")(s, nd), len(nd) / len(s)), (s,), "non_domination_ratio")
        if U("distribution"):
            sg = B.rng.choice([0.5, 0.0, 1.0, 0.25])
            good, v = B.run((s, sg), U("distribution"), s, sg)
            if good:
                n = len(s)
                want = sum(1 for x in s for y in s if math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y))) > sg) / (n * (n - 1)) if n > 1 else float("inf")
                B.expect(v == want or close(v, want), (s, sg), "distribution %r, definition gives %r" % (v, want))
                B.expect(n == 1 or 0 <= v <= 1, (s, sg), "distribution outside [0,1]")


def c_iter(B):
    """the functions that copy their argument accept any iterable"""
    U = lambda n: B.opt("metrics.metrics_utils:" + n)
    for _ in B.loop(300):
        s, p = sets(B)
        B.case((s, p))
        if U("distance_from_pareto"):
            good, v = B.run((s, p), lambda: U("distance_from_pareto")(iter(s), p))
            if good:
                B.expect(close(v, sum(math.sqrt(mind(x, p)) for x in s) / len(s)), (s, p), "distance_from_pareto of an iterator")


def c_pdi(B):
    f = B.get("metrics.metrics:pareto_dominance_indicator")
    g = B.opt("metrics.metrics_utils:pareto_dominance_indicator")
    for _ in B.loop(3000):
        rng = B.rng
        d = rng.choice([2, 2, 3])
        s = points(rng, rng.choice([1, 2, 4, 6]), d)
        o = points(rng, rng.choice([0, 1, 3, 6]), d)
        pool = {tuple(x) for x in nondom(s + o)}
        if rng.random() < 0.3:
            s = [tuple(x) for x in s]
        nd = nondom(s)
        B.case((s, o))
        for k, arg in enumerate((pool, frozenset(pool))):
            good, v = B.run((s, pool), f, s, nd, arg)
            if good:
                want = len(pool & {tuple(x) for x in nd}) / len(pool)
                B.expect(close(v, want), (s, sorted(pool)), "indicator %r, definition gives %r" % (v, want))
                B.expect(0 <= v <= 1, (s, sorted(pool)), "outside [0,1]")
                if all(x in pool for x in map(tuple, nd)) and len(pool) == len({tuple(x) for x in nd}):
                    B.expect(v == 1, (s, sorted(pool)), "not 1 although the set is the pool")


def c_eps_class(B):
    E = B.get("metrics.epsilon:Epsilon")
    shared = E()
    for _ in B.loop(3000):
        s, p = sets(B)
        B.case((s, p))
        want = DEFS["epsilon"](s, s, p)
        for e in (shared, E()):
            good, v = B.run((s, p), e.epsilon, s, p)
            if good:
                B.expect(close(v, want), (s, p), "epsilon %r, definition gives %r" % (v, want))


def c_processor(B):
    """the metric functions of the results processor pass the right set and the right front"""
    import types
    M = B.get("simulation.metrics_processor:yield_metrics")
    RM = B.opt("simulation.model:Result") or B.opt("simulation.serialization:Result")
    get = B.opt("simulation.metrics_processor:get_metric")
    if RM is None:
        return


CHECKS = [(n, mk(n)) for n in DEFS] + [("metrics_utils", c_utils), ("iterators", c_iter), ("dominance indicator", c_pdi), ("Epsilon class", c_eps_class)]
