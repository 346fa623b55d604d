import itertools, collections
from gens import *


def pops(B, quick=500, thorough=15000, nmax=14):
    for n in (0, 1, 2, 3):
        for ps in itertools.product(itertools.product((0.0, 1.0), repeat=2), repeat=n):
            yield [list(p) for p in ps]
    for n in (20, 45, 70):
        # long chains (one front per point), chains of pairs, and one wide front
        ks = B.rng.sample(range(n), n)
        yield [[float(i), 2.0 * i] for i in ks]
        yield [[float(i // 2) + (i % 2) * 0.25, float(i // 2) + (1 - i % 2) * 0.25] for i in ks]
        yield [[float(i), -2.0 * i] for i in ks]
    for _ in B.loop(quick, thorough):
        n = B.rng.randrange(0, nmax)
        if B.rng.random() < 0.02:
            yield points(B.rng, B.rng.randrange(20, 60), B.rng.choice([1, 2, 3]), B.rng.choice(["int", "float", "neg"]))
            continue
        d = B.rng.choice([1, 2, 2, 3, 4])
        if B.rng.random() < 0.15:
            # a chain plus noise: many fronts
            yield [[i] * d for i in B.rng.sample(range(30), n)]
        else:
            yield points(B.rng, n, d)


def as_index_sets(B, ps, layers, ident):
    """layers: list of lists of items; ident(item) -> index"""
    return [[ident(x) for x in l] for l in layers]


def judge(B, ps, layers):
    B.case(ps)
    flat = [i for l in layers for i in l]
    B.expect(sorted(flat) == list(range(len(ps))), ps, "fronts %r are not a partition of the population" % (layers,))
    want = fronts(ps)
    B.expect([set(l) for l in layers if l] == want, ps, "fronts are %r, should be %r" % (layers, want))


class Tagged(list):
    pass


def tag(ps):
    out = []
    for i, p in enumerate(ps):
        t = Tagged(p)
        t.tag = i
        out.append(t)
    return out


def c_layers(B):
    f = B.get("evotools.ea_utils:paretofront_layers")
    for ps in pops(B):
        if not B.more():
            break
        pop = tag(ps)
        ok, r = B.run(ps, lambda: [list(l) for l in f(pop, lambda x: [v for v in x])])
        if ok:
            judge(B, ps, [[x.tag for x in l] for l in r])


def c_rank(B):
    f = B.get("algorithms.base.drivertools:rank")
    for ps in pops(B):
        if not B.more():
            break
        B.case(ps)
        pop = tag(ps)
        ok, r = B.run(ps, lambda: [x.tag for x in f(pop, lambda x: list(x))])
        if ok:
            B.expect(sorted(r) == list(range(len(ps))), ps, "rank is not a permutation: %r" % (r,))
            want = fronts(ps)
            lev = {i: k for k, s in enumerate(want) for i in s}
            B.expect(all(lev[a] <= lev[b] for a, b in zip(r, r[1:])), ps, "rank order %r is not best-to-worst" % (r,))


def c_inorder(B):
    f = B.get("algorithms.base.drivertools:get_indivs_inorder")
    for ps in pops(B, 150):
        if not B.more():
            break
        B.case(ps)
        if not ps:
            continue
        d = len(ps[0])
        pop = tag(ps)
        ok, r = B.run(ps, lambda: [x.tag for x in f(None, [lambda x, k=k: x[k] for k in range(d)], pop)])
        if ok:
            lev = {i: k for k, s in enumerate(fronts(ps)) for i in s}
            B.expect(sorted(r) == list(range(len(ps))), ps, "not a permutation: %r" % (r,))
            B.expect(all(lev[a] <= lev[b] for a, b in zip(r, r[1:])), ps, "order %r is not best-to-worst" % (r,))


def drv_sort(B, cls, ind, meth):
    keys = [lambda x, k=k: k for k in range(6)]
    for ps in pops(B):
        if not B.more():
            break
        if not ps:
            continue
        o = cls.__new__(cls)
        inds = []
        for i, p in enumerate(ps):
            x = ind([float(i)])
            x.objectives = {keys[k]: v for k, v in enumerate(p)}
            x.tag = i
            inds.append(x)
        o.individuals = list(inds)
        o.objectives = keys[:len(ps[0])]
        o.population_size = len(ps)
        ok, _ = B.run(ps, getattr(o, meth))
        if not ok:
            continue
        lay = [[x.tag for x in o.front[k]] for k in sorted(o.front) if o.front[k]]
        judge(B, ps, lay)
        B.expect(sorted(k for k in o.front if o.front[k]) == list(range(1, len(lay) + 1)), ps, "front numbers are not 1..k")
        for k in o.front:
            for x in o.front[k]:
                B.expect(o.nsga_rank[x] == k, ps, "recorded rank of %d is %r, front is %d" % (x.tag, o.nsga_rank[x], k))
        B.expect(sorted(x.tag for x in o.individuals) == list(range(len(ps))), ps, "sorting changed the population")


def c_nsgaii(B):
    B.get("algorithms.NSGAII.NSGAII:NSGAII._nd_sort")
    drv_sort(B, B.get("algorithms.NSGAII.NSGAII:NSGAII"), B.get("algorithms.NSGAII.NSGAII:Individual"), "_nd_sort")


def c_nsls(B):
    B.get("algorithms.NSLS.NSLS:NSLS.nd_sort")
    drv_sort(B, B.get("algorithms.NSLS.NSLS:NSLS"), B.get("algorithms.NSLS.NSLS:Individual"), "nd_sort")


def c_smsemoa(B):
    f = B.get("algorithms.SMSEMOA.SMSEMOA:nd_sort")
    I = B.get("algorithms.SMSEMOA.SMSEMOA:Individual")
    for ps in pops(B):
        if not B.more():
            break
        inds = []
        for i, p in enumerate(ps):
            x = I([float(i)])
            x.objectives = list(p)
            x.tag = i
            inds.append(x)
        ok, fr = B.run(ps, f, inds)
        if ok:
            judge(B, ps, [[x.tag for x in fr[k]] for k in sorted(fr) if fr[k]])
            B.expect(sorted(fr) == list(range(1, len(fr) + 1)) and all(fr[k] for k in fr), ps, "front numbers are not 1..k or a front is empty")


def c_nsgaiii(B):
    """theta-dominance inside clusters: fronts are the levels of each cluster's fitness order"""
    f = B.get("algorithms.NSGAIII.NSGAIII:theta_non_dominated_sort")
    I = B.get("algorithms.NSGAIII.NSGAIII:Individual")
    for _ in B.loop(400, 10000):
        n = B.rng.randrange(0, 14)
        inds = []
        for i in range(n):
            x = I([float(i)])
            x.cluster = B.rng.randrange(3)
            x.theta_fitness = B.rng.choice([0.0, 0.5, 1.0, B.rng.random()])
            x.tag = i
            inds.append(x)
        key = [(x.cluster, x.theta_fitness) for x in inds]
        B.case(key)
        ok, fr = B.run(key, f, inds)
        if not ok:
            continue
        lay = [[x.tag for x in fr[k]] for k in sorted(fr) if fr[k]]
        want = []
        left = set(range(n))
        while left:
            s = {i for i in left if not any(key[j][0] == key[i][0] and key[j][1] < key[i][1] for j in left)}
            want.append(s)
            left -= s
        B.expect(sorted(i for l in lay for i in l) == list(range(n)), key, "not a partition: %r" % (lay,))
        B.expect([set(l) for l in lay] == want, key, "fronts are %r, should be %r" % (lay, want))


CHECKS = [("paretofront_layers", c_layers), ("rank", c_rank), ("get_indivs_inorder", c_inorder), ("NSGAII.sort", c_nsgaii), ("NSLS.sort", c_nsls),
          ("SMSEMOA.sort", c_smsemoa), ("NSGAIII.sort", c_nsgaiii)]
