import itertools
from gens import *


def pairs(B, quick=4000, thorough=200000):
    for d in (1, 2, 3):
        for a in itertools.product((0.0, 1.0, 2.0), repeat=d):
            for b in itertools.product((0.0, 1.0, 2.0), repeat=d):
                yield list(a), list(b)
    for _ in B.loop(quick, thorough):
        d = B.rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
        st = B.rng.choice(["int", "half", "float", "tiny", "neg"])
        a = vec(B.rng, d, st)
        k = B.rng.randrange(4)
        if k == 0:
            b = vec(B.rng, d, st)
        else:
            b = list(a)
            for i in B.rng.sample(range(d), min(d, k)):
                if k == 3:
                    b[i] = b[i] + B.rng.choice([-1, 1])
                else:
                    b[i] = B.rng.choice([b[i], b[i] + 1, b[i] - 1, b[i] + 1e-9, b[i] * (1 + 1e-12), float("inf"), float("-inf")])
        yield a, b


def check(B, fn, shape=lambda a: a):
    for a, b in pairs(B):
        if not B.more():
            break
        B.case((a, b))
        ok, r = B.run((a, b), fn, shape(a), shape(b))
        if ok:
            B.expect(bool(r) == dom(a, b), (a, b), "dominates answered %r, definition says %r" % (r, dom(a, b)))
    # partial order on triples
    for _ in B.loop(300, 5000):
        d = B.rng.choice([1, 2, 3])
        a, b, c = [vec(B.rng, d, "int") for _ in range(3)]
        A, Bb, C = shape(a), shape(b), shape(c)
        B.case((a, b, c))
        B.expect(not fn(A, A), a, "not irreflexive")
        B.expect(not (fn(A, Bb) and fn(Bb, A)), (a, b), "not asymmetric")
        if fn(A, Bb) and fn(Bb, C):
            B.expect(fn(A, C), (a, b, c), "not transitive")


def c_dominates(B):
    check(B, B.get("evotools.ea_utils:dominates"))


def c_dominates_types(B):
    f = B.get("evotools.ea_utils:dominates")
    check(B, f, tuple)


def c_cmp(B):
    f = B.get("evotools.ea_utils:domination_cmp")
    for a, b in pairs(B):
        if not B.more():
            break
        B.case((a, b))
        ok, r = B.run((a, b), f, a, b)
        if ok:
            want = 1 if dom(a, b) else -1 if dom(b, a) else 0
            B.expect(r == want, (a, b), "domination_cmp answered %r, definition says %r" % (r, want))


class O:
    pass


def shape_nsgaii(B):
    I = B.get("algorithms.NSGAII.NSGAII:Individual")
    keys = [lambda x, k=k: k for k in range(12)]

    def mk(a):
        i = I([0.0])
        i.objectives = {keys[k]: v for k, v in enumerate(a)}
        return i
    return mk


def c_nsgaii(B):
    check(B, B.get("algorithms.NSGAII.NSGAII:dominates"), shape_nsgaii(B))


def c_nsls(B):
    B.get("algorithms.NSLS.NSLS:NSLS")
    d = B.get("algorithms.NSLS.NSLS:NSGAII.dominates")
    check(B, d, shape_nsgaii(B))


def c_spea2(B):
    f = B.get("algorithms.SPEA2.SPEA2:SPEA2.dominates")
    check(B, f, lambda a: {"value": [0.0], "objectives": list(a)})


def c_omopso(B):
    I = B.get("algorithms.OMOPSO.OMOPSO:Individual")
    B.get("algorithms.OMOPSO.OMOPSO:Individual.dominates")

    def mk(a):
        i = I([0.0])
        i.objectives = list(a)
        return i
    check(B, lambda x, y: x.dominates(y), mk)
    check(B, lambda x, y: x.dominates(y, 0), mk)
    check(B, lambda x, y: x.dominates(y, eta=0.0), mk)


CHECKS = [("dominates", c_dominates), ("dominates_tuples", c_dominates_types), ("domination_cmp", c_cmp), ("NSGAII.dominates", c_nsgaii),
          ("NSLS.dominates", c_nsls), ("SPEA2.dominates", c_spea2), ("OMOPSO.dominates", c_omopso)]
