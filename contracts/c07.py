from .lib import *

M = "metrics.metrics_utils:"
W = "metrics.metrics:"


def ptset(P, nm, d):
    n = P.int("n" + nm, 1)
    return P.vecs(nm, n, d)


def sq2(P, x, y, d):
    return SUM(P, d, lambda k: mul(sub(x.get(k), y.get(k)), sub(x.get(k), y.get(k))))


@proof("C07", "squared distance equals its definition, any dimension", M + "euclid_sqr_distance")
def sqr(P):
    d = P.int("d", 0)
    x, y = P.vec("x", d), P.vec("y", d)
    for s, v in P.call(M + "euclid_sqr_distance", [x, y]):
        P.ensure(s, "sum of squared differences", R(v) == sq2(P, x, y, d))
        P.ensure(s, "non-negative", R(v) >= 0)


@proof("C07", "distance equals its definition, any dimension", M + "euclid_distance")
def euc(P):
    d = P.int("d", 0)
    x, y = P.vec("x", d), P.vec("y", d)
    for s, v in P.call(M + "euclid_distance", [x, y]):
        P.ensure(s, "root of the sum of squared differences", z3.And(R(v) >= 0, R(v) * R(v) == sq2(P, x, y, d)))


def dist_spec(P, s, A, B, d):
    """root of the mean over A of the squared distance to the nearest point of B"""
    m = SUM(P, A.n, lambda i: MIN(P, B.n, lambda j: sq2(P, A.get(i), B.get(j), d)))
    return m / z3.ToReal(toz(A.n))


def root_of(P, s, v, t, name):
    P.ensure(s, name, z3.And(R(v) >= 0, R(v) * R(v) == t))


@proof("C07", "root mean square of nearest distances, any two sets", M + "distance")
def distance(P):
    d = P.int("d", 1)
    A, B = ptset(P, "A", d), ptset(P, "B", d)
    for s, v in P.call(M + "distance", [A, B]):
        root_of(P, s, v, dist_spec(P, s, A, B, d), "equals the definition")


@proof("C07", "generational distance is measured from the set to the front", M + "generational_distance")
def gd(P):
    d = P.int("d", 1)
    A, B = ptset(P, "A", d), ptset(P, "B", d)
    for s, v in P.call(M + "generational_distance", [A, B]):
        root_of(P, s, v, dist_spec(P, s, A, B, d), "equals the definition")


@proof("C07", "inverted generational distance is measured from the front to the set", M + "inverse_generational_distance")
def igd(P):
    d = P.int("d", 1)
    A, B = ptset(P, "A", d), ptset(P, "B", d)
    for s, v in P.call(M + "inverse_generational_distance", [A, B]):
        root_of(P, s, v, dist_spec(P, s, B, A, d), "equals the definition")


def triple(P):
    """all points, the non-dominated ones and the reference front: three unrelated sets, so that each metric must take the right one"""
    d = P.int("d", 1)
    return d, ptset(P, "S", d), ptset(P, "N", d), ptset(P, "F", d)


@proof("C07", "generational distance uses the non-dominated points", W + "generational_distance")
def wgd(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "generational_distance", [S, N, F]):
        root_of(P, s, v, dist_spec(P, s, N, F, d), "from the non-dominated points to the front")


@proof("C07", "inverted generational distance uses all points", W + "inverse_generational_distance")
def wigd(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "inverse_generational_distance", [S, N, F]):
        root_of(P, s, v, dist_spec(P, s, F, S, d), "from the front to all points")


@proof("C07", "averaged Hausdorff distance is the larger of both", W + "average_hausdorff_distance")
def wahd(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "average_hausdorff_distance", [S, N, F]):
        a, b = dist_spec(P, s, N, F, d), dist_spec(P, s, F, S, d)
        P.ensure(s, "square of the larger distance", z3.And(R(v) >= 0, R(v) * R(v) == z3.If(a >= b, a, b)))


@proof("C07", "distance from the front is the mean nearest distance", M + "distance_from_pareto")
def dfp(P):
    d = P.int("d", 1)
    A, B = ptset(P, "A", d), ptset(P, "B", d)
    for s, v in P.call(M + "distance_from_pareto", [A, B]):
        t = SUM(P, A.n, lambda i: MIN(P, B.n, lambda j: SQRT(P, s, sq2(P, A.get(i), B.get(j), d))))
        P.ensure(s, "equals the definition", R(v) * z3.ToReal(toz(A.n)) == t)


@proof("C07", "extent of all points", W + "extent")
def ext(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "extent", [S, N, F]):
        t = SUM(P, d, lambda k: MAX(P, S.n, lambda i: MAX(P, S.n, lambda j: absr(sub(S.get(i).get(k), S.get(j).get(k))))))
        root_of(P, s, v, t, "root of the summed coordinate ranges of all points")


@proof("C07", "non-domination ratio", W + "non_domination_ratio")
def ndr(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "non_domination_ratio", [S, N, F]):
        P.ensure(s, "share of non-dominated points", R(v) * z3.ToReal(toz(S.n)) == z3.ToReal(toz(N.n)))


@proof("C07", "additive epsilon", W + "epsilon")
def eps(P):
    d, S, N, F = triple(P)
    for s, v in P.call(W + "epsilon", [S, N, F]):
        t = MAX(P, N.n, lambda i: MIN(P, F.n, lambda j: MAX(P, d, lambda k: sub(F.get(j).get(k), N.get(i).get(k)))))
        P.ensure(s, "equals the definition", R(v) == t)


@proof("C07", "spacing of the non-dominated points", W + "spacing")
def spc(P):
    d, S, N, F = triple(P)
    P.assume(toz(N.n) >= 2)
    for s, v in P.call(W + "spacing", [S, N, F]):
        n = toz(N.n)
        i, j = P.eng.fresh_index("i"), P.eng.fresh_index("j")
        l1 = SUM(P, d, lambda k: absr(sub(N.get(i).get(k), N.get(j).get(k))))
        near = P.eng.bigops.ext(l1, j, "min", i != j)(n)
        at = lambda t: z3.substitute(near, (i, toz(t)))
        mean = SUM(P, n, at) / z3.ToReal(n)
        dev = SUM(P, n, lambda t: (mean - at(t)) * (mean - at(t)))
        eps = R(P.get("metrics.metrics_utils:EPSILON"))
        P.ensure(s, "regulariser of the divisor is negligible", z3.And(eps > 0, eps * 2 ** 40 < 1))
        P.ensure(s, "deviation of the distances to the nearest other point", z3.And(R(v) >= 0, R(v) * R(v) * (z3.ToReal(n) - 1 + eps) == dev))


@proof("C07", "distribution", M + "distribution")
def distr(P):
    d = P.int("d", 1)
    A = ptset(P, "A", d)
    P.assume(toz(A.n) >= 2)
    sg = P.real("sigma")
    for s, v in P.call(M + "distribution", [A, sg]):
        n = z3.ToReal(toz(A.n))
        t = SUM(P, A.n, lambda i: SUM(P, A.n, lambda j: z3.If(sg < SQRT(P, s, sq2(P, A.get(i), A.get(j), d)), 1, 0)))
        P.ensure(s, "share of far pairs", R(v) * n * (n - 1) == toreal(t))
