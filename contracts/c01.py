from .lib import *


def two(P):
    x, y = P.vec("x"), P.vec("y")
    P.assume(toz(x.n) == toz(y.n))
    P.eng.inv_cands = [cmp_cands]
    return x, y


def spec3(P, s, v, x, y):
    v = toz(num(v))
    P.ensure(s, "+1 iff xs dominates ys", (v > 0) == dom_def(x.get, y.get, x.n))
    P.ensure(s, "-1 iff ys dominates xs", (v < 0) == dom_def(y.get, x.get, x.n))
    P.ensure(s, "answer in {-1,0,1}", z3.Or(v == -1, v == 0, v == 1))


@proof("C01", "three-way comparison equals the definition, any length", "evotools.ea_utils:domination_cmp")
def cmp3(P):
    x, y = two(P)
    for s, v in P.call("evotools.ea_utils:domination_cmp", [x, y]):
        spec3(P, s, v, x, y)


@proof("C01", "dominates equals the definition, any length", "evotools.ea_utils:dominates")
def dominates(P):
    x, y = two(P)
    for s, v in P.call("evotools.ea_utils:dominates", [x, y]):
        P.ensure(s, "True iff xs dominates ys", toz(P.eng.truth(v, s)) == dom_def(x.get, y.get, x.n))


@proof("C01", "strict partial order", "lemma over the definition of dominance")
def order(P):
    P.lemma = True
    n = P.int("n", 0)
    f = [z3.Function(c, z3.IntSort(), z3.RealSort()) for c in "abc"]
    a, b, c = f
    P.ensure(P.st, "irreflexive", z3.Not(dom_def(a, a, n)))
    P.ensure(P.st, "asymmetric", z3.Not(z3.And(dom_def(a, b, n), dom_def(b, a, n))))
    P.ensure(P.st, "transitive", z3.Implies(z3.And(dom_def(a, b, n), dom_def(b, c, n)), dom_def(a, c, n)))


def symdict(P, f, n):
    return DictRef(P.eng.alloc(P.st, HeapDict((), fmap=dict(n=n, key=lambda i: i, get=lambda k: f(toz(k)), has=lambda k: z3.And(toz(k) >= 0, toz(k) < toz(n))))))


@proof("C01", "NSGAII.dominates on stored objective values, any number of objectives", "algorithms.NSGAII.NSGAII:dominates, dominates_weak")
def nsgaii(P):
    n = P.int("n", 0)
    a, b = P.fn1("a", z3.IntSort(), z3.RealSort()), P.fn1("b", z3.IntSort(), z3.RealSort())
    P.eng.inv_cands = [cmp_cands]
    x = P.obj("algorithms.NSGAII.NSGAII:Individual", dict(objectives=symdict(P, a, n)))
    y = P.obj("algorithms.NSGAII.NSGAII:Individual", dict(objectives=symdict(P, b, n)))
    for s, v in P.call("algorithms.NSGAII.NSGAII:dominates", [x, y]):
        P.ensure(s, "True iff x dominates y", toz(P.eng.truth(v, s)) == dom_def(a, b, n))


@proof("C01", "SPEA2.dominates on stored objective values", "algorithms.SPEA2.SPEA2:SPEA2.dominates")
def spea2(P):
    x, y = two(P)
    p1, p2 = P.dct([("objectives", x)]), P.dct([("objectives", y)])
    for s, v in P.call("algorithms.SPEA2.SPEA2:SPEA2.dominates", [p1, p2]):
        P.ensure(s, "True iff p1 dominates p2", toz(P.eng.truth(v, s)) == dom_def(x.get, y.get, x.n))


def omo(P, eta):
    x, y = two(P)
    P.eng.inv_cands = [omo_cands(x, y, eta)]
    p = P.obj("algorithms.OMOPSO.OMOPSO:Individual", dict(objectives=x))
    q = P.obj("algorithms.OMOPSO.OMOPSO:Individual", dict(objectives=y))
    return x, y, p, q


def omo_cands(x, y, eta):
    """the loop walks indices: what a flag says about objectives 0..m-1, with x scaled by 1/(1+eta)"""
    sc = (lambda t: t) if eta is None else (lambda t: t / (1 + eta))

    def cand(eng, v, m, sq):
        pairs = Seq(x.n, lambda i: (sc(x.get(i)), y.get(i)))
        return cmp_cands(eng, v, m, pairs)
    return cand


@proof("C01", "OMOPSO dominance without relaxation, any number of objectives", "algorithms.OMOPSO.OMOPSO:Individual.dominates")
def omopso(P):
    x, y, p, q = omo(P, None)
    for s, v in P.call(P.method(p, "dominates"), [p, q]):
        P.ensure(s, "True iff p dominates q", toz(P.eng.truth(v, s)) == dom_def(x.get, y.get, x.n))


@proof("C01", "OMOPSO dominance with relaxation eta >= 0", "algorithms.OMOPSO.OMOPSO:Individual.dominates")
def omopso_eta(P):
    eta = P.real("eta")
    P.assume(eta >= 0)
    x, y, p, q = omo(P, eta)
    for s, v in P.call(P.method(p, "dominates"), [p, q, eta]):
        P.ensure(s, "True iff p, scaled by 1/(1+eta), dominates q", toz(P.eng.truth(v, s)) == dom_def(lambda k: x.get(k) / (1 + eta), y.get, x.n))


@proof("C01", "theta dominance is a strict partial order per cluster", "algorithms.NSGAIII.NSGAIII:dominates")
def theta(P):
    I = "algorithms.NSGAIII.NSGAIII:Individual"
    c = [P.int("c%d" % i) for i in range(3)]
    t = [P.real("t%d" % i) for i in range(3)]
    o = [P.obj(I, dict(cluster=c[i], theta_fitness=t[i])) for i in range(3)]
    for i, j in ((0, 1), (0, 0), (1, 2)):
        for s, v in P.call("algorithms.NSGAIII.NSGAIII:dominates", [o[i], o[j]]):
            P.ensure(s, "True iff same cluster and smaller theta fitness (%d,%d)" % (i, j), toz(P.eng.truth(v, s)) == z3.And(c[i] == c[j], t[i] < t[j]))
