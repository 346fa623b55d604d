import math, random, itertools
from gens import *
import algs


def idfits(d):
    return [lambda v, k=k: v[k] for k in range(d)]


def fill_counts(sizes, n):
    out = []
    for s in sizes:
        t = min(s, n)
        out.append(t)
        n -= t
    return out


def by_front(B, inp, pool, pts, kept, size):
    """pool: individuals (identity), pts: their objective vectors, kept: survivors"""
    ids = {id(x): i for i, x in enumerate(pool)}
    B.expect(len(kept) == min(size, len(pool)), inp, "%d survivors, configured size %d (pool %d)" % (len(kept), size, len(pool)))
    B.expect(len({id(x) for x in kept}) == len(kept), inp, "an individual survives twice")
    if not B.expect(all(id(x) in ids for x in kept), inp, "a survivor is not from the pool"):
        return
    fr = fronts(pts)
    got = [sum(1 for x in kept if ids[id(x)] in f) for f in fr]
    B.expect(got == fill_counts([len(f) for f in fr], size), inp, "survivors per front %r, front sizes %r, size %d" % (got, [len(f) for f in fr], size))


def pools(B, quick, thorough, lo=1, hi=14):
    for _ in B.loop(quick, thorough):
        n = B.rng.randrange(lo, hi)
        d = B.rng.choice([1, 2, 2, 3])
        if B.rng.random() < 0.35:
            ps = front2(B.rng, n)
            for _ in range(B.rng.randrange(3)):
                ps.append([x + B.rng.uniform(0, 0.5) for x in B.rng.choice(ps)])
        elif B.rng.random() < 0.2:
            ps = [[float(i)] * d for i in B.rng.sample(range(40), n)]
        else:
            ps = points(B.rng, n, d)
        B.rng.shuffle(ps)
        yield ps, len(ps[0])


def c_nsgaii(B):
    Ind = B.get("algorithms.NSGAII.NSGAII:Individual")
    for ps, d in pools(B, 600, 15000):
        size = B.rng.randint(1, len(ps))
        a = algs.simple(B, "NSGAII", [list(p) for p in ps[:size]], [(-10, 1e10)] * d, idfits(d))
        if not all(hasattr(a, m) for m in ("_nd_sort", "_crowding", "_environmental_selection", "_calculate_objectives")):
            return
        a.individuals = a.individuals + [Ind(list(p)) for p in ps[size:]]
        pool = list(a.individuals)
        inp = (size, ps)
        B.case(inp)
        ok, _ = B.run(inp, lambda: (a._calculate_objectives(), a._nd_sort(), a._crowding(), a._environmental_selection()))
        if ok:
            kept = list(a.individuals)
            by_front(B, inp, pool, ps, kept, size)
            dist = getattr(a, "dist", None)
            if isinstance(dist, dict):
                ki = {id(x) for x in kept}
                ids = {id(x): i for i, x in enumerate(pool)}
                for f in fronts(ps):
                    k = [dist[pool[i]] for i in f if id(pool[i]) in ki]
                    g = [dist[pool[i]] for i in f if id(pool[i]) not in ki]
                    if k and g:
                        B.expect(min(k) >= max(g) or close(min(k), max(g)), inp, "a more crowded individual was preferred within the cut front")


def c_crowding(B):
    """crowding distance of an inner point of a 2-objective front: normalised gap between its neighbours in each objective"""
    for _ in B.loop(300, 6000):
        n = B.rng.randrange(3, 9)
        ps = front2(B.rng, n)
        B.rng.shuffle(ps)
        a = algs.simple(B, "NSGAII", [list(p) for p in ps], [(-10, 10)] * 2, idfits(2))
        if not all(hasattr(a, m) for m in ("_nd_sort", "_crowding", "_calculate_objectives")):
            return
        B.case(ps)
        a._calculate_objectives()
        a._nd_sort()
        ok, _ = B.run(ps, a._crowding)
        if not ok or not isinstance(getattr(a, "dist", None), dict):
            return
        order = sorted(ps)
        span = [max(p[k] for p in ps) - min(p[k] for p in ps) for k in (0, 1)]
        for ind in a.individuals:
            i = order.index(list(ind.v))
            if 0 < i < n - 1:
                want = sum(abs(order[i + 1][k] - order[i - 1][k]) / span[k] for k in (0, 1))
                B.expect(close(a.dist[ind], want, 1e-6), ps, lambda: "crowding distance of %r is %r, should be %r" % (ind.v, a.dist[ind], want))


def c_step(B):
    """one public step of NSGAII / NSGAIII: survivors of the previous individuals, by fronts"""
    for _ in B.loop(60, 2000):
        d = B.rng.choice([2, 3])
        fits = objectives(B.rng.choice([0, 1, 3, 4]), d)
        pop = [inbox(B.rng, [(0, 2)] * d) for _ in range(B.rng.choice([4, 6, 9]))]
        seed = B.rng.random()
        inp = (fits.__len__(), pop, seed)
        B.case(inp)
        random.seed(seed)
        a = algs.simple(B, "NSGAII", [list(p) for p in pop], [(0, 2)] * d, fits)
        for _ in range(4):
            pool = list(a.individuals)
            pts = [[f(x.v) for f in fits] for x in pool]
            ok, _ = B.run(inp, a.step)
            if not ok:
                return
            old = {id(x) for x in pool}
            by_front(B, inp, pool, pts, [x for x in a.individuals if id(x) in old], len(pop))
            B.expect(len(a.individuals) == len(pop) + int(0.5 * len(pop)), inp, "individuals after a step: %d" % len(a.individuals))
        ok, r = B.run(inp, lambda: list(a.finalized_population()))
        if ok:
            B.expect(len(r) == len(pop), inp, "finalized population has %d of %d" % (len(r), len(pop)))


def c_nsga3(B):
    M = "algorithms.NSGAIII.NSGAIII:"
    B.get(M + "NSGAIII.create_final_population")
    Ind = B.get(M + "Individual")
    for _ in B.loop(500, 10000):
        n = B.rng.randrange(2, 8)
        sizes = [B.rng.randrange(1, 5) for _ in range(6)]
        while sum(sizes) < n:
            sizes.append(2)
        a = algs.simple(B, "NSGAIII", [[0.1 * i, 0.2] for i in range(n)], [(0, 1)] * 2, idfits(2))
        import collections
        fr = collections.defaultdict(list)
        for i, s in enumerate(sizes):
            fr[i + 1] = [Ind([0.0, 0.0]) for _ in range(s)]
        inp = (n, sizes)
        B.case(inp)
        ok, _ = B.run(inp, a.create_final_population, fr)
        if ok:
            got = [sum(1 for x in a.individuals if any(x is y for y in fr[i + 1])) for i in range(len(sizes))]
            B.expect(len(a.individuals) == n and len({id(x) for x in a.individuals}) == n, inp, "%d survivors" % len(a.individuals))
            B.expect(got == fill_counts(sizes, n), inp, "survivors per front %r" % got)


def c_nsga3_step(B):
    for _ in B.loop(60, 2000):
        d = B.rng.choice([2, 3])
        fits = objectives(B.rng.choice([0, 1, 2]), d)
        n = B.rng.choice([4, 6, 7])
        pop = [inbox(B.rng, [(0, 2)] * d) for _ in range(n)]
        seed = B.rng.random()
        inp = (pop, seed, len(fits))
        B.case(inp)
        random.seed(seed)
        a = algs.simple(B, "NSGAIII", [list(p) for p in pop], [(0, 2)] * d, fits)
        for _ in range(3):
            ok, _ = B.run(inp, a.step)
            if not ok:
                return
            B.expect(len(a.individuals) == n, inp, "%d survivors" % len(a.individuals))
            B.expect(len({id(x) for x in a.individuals}) == n, inp, "an individual survives twice")
            fr = getattr(a, "front", None)
            if isinstance(fr, dict) and fr:
                keys = sorted(k for k in fr if fr[k])
                ki = {id(x) for x in a.individuals}
                got = [sum(1 for x in fr[k] if id(x) in ki) for k in keys]
                B.expect(got == fill_counts([len(fr[k]) for k in keys], n), inp, "survivors per front %r of %r" % (got, [len(fr[k]) for k in keys]))
                # the fronts are those of the theta dominance, recomputed from the definition
                pool = [x for k in keys for x in fr[k]]
                if all(hasattr(x, "theta_fitness") and hasattr(x, "cluster") for x in pool):
                    for x in pool:
                        z = [float(t) for t in x.normalized_objectives]
                        best = None
                        for j, rp in enumerate(a.reference_points):
                            L = math.sqrt(sum(float(t) ** 2 for t in rp))
                            d1 = sum(u * float(t) for u, t in zip(z, rp)) / L
                            d2 = math.sqrt(sum((u - d1 * float(t) / L) ** 2 for u, t in zip(z, rp)))
                            if best is None or d2 < best[0]:
                                best = (d2, j, d1)
                            if j == x.cluster:
                                mine = (d2, d1)
                        B.expect(close(mine[0], best[0], 1e-6, 1e-9), inp, "individual assigned to a cluster that is not the nearest")
                        B.expect(close(x.theta_fitness, mine[1] + a.theta * mine[0], 1e-6, 1e-9), inp, "theta fitness is not d1 + theta*d2")
                    for x in pool:
                        rk = [k for k in keys if any(x is y for y in fr[k])]
                        better = {y.theta_fitness for y in pool if y.cluster == x.cluster and y.theta_fitness < x.theta_fitness}
                        B.expect(rk == [1 + len(better)] or len(rk) == 1 and rk[0] == 1 + len(better), inp, "front number %r, theta rank %d" % (rk, 1 + len(better)))


def c_nsls(B):
    Ind = B.get("algorithms.NSLS.NSLS:Individual")
    for ps, d in pools(B, 500, 12000, lo=2):
        size = B.rng.randint(2, len(ps))
        a = algs.simple(B, "NSLS", [list(p) for p in ps[:size]], [(-10, 1e10)] * d, idfits(d))
        if not all(hasattr(a, m) for m in ("nd_sort", "next_generation", "calculate_objectives")):
            return
        a.individuals = a.individuals + [Ind(list(p)) for p in ps[size:]]
        pool = list(a.individuals)
        inp = (size, ps)
        B.case(inp)
        if size == len(ps):
            continue_ = guard(lambda: (a.calculate_objectives(a.individuals), a.nd_sort(), a.next_generation()))
            if continue_ is not None:
                B.fail(inp, continue_)
                return
        else:
            ok, _ = B.run(inp, lambda: (a.calculate_objectives(a.individuals), a.nd_sort(), a.next_generation()))
            if not ok:
                return
        by_front(B, inp, pool, ps, list(a.individuals), size)


def guard(f, seconds=10):
    import signal

    def h(*x):
        raise TimeoutError("does not terminate")
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        f()
        return None
    except Exception as ex:
        return "raised %r" % (ex,)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def c_nsls_step(B):
    for _ in B.loop(25, 600):
        d = B.rng.choice([1, 2])
        k = B.rng.randrange(3)
        fits = [lambda x: (x[0] ** 2 - 1) ** 2, lambda x: 2 * (x[0] ** 2 - 1) ** 2] if k == 0 else objectives(k, d)
        pop = [[1.0] * d, [-1.0] * d] if k == 0 else [inbox(B.rng, [(0, 2)] * d) for _ in range(5)]
        inp = (k, pop)
        B.case(inp)
        a = algs.simple(B, "NSLS", [list(p) for p in pop], [(-5, 5)] * d, fits)
        for _ in range(3):
            r = guard(a.step)
            if r is not None:
                B.fail(inp, r)
                return
            B.expect(len(a.individuals) == len(pop), inp, "%d survivors of %d" % (len(a.individuals), len(pop)))


def euclid(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def spea2_oracle(pts, size):
    """-> set of surviving indices or None when a tie leaves the choice open"""
    n = len(pts)
    dm = [[dom(p, q) for q in pts] for p in pts]
    S = [sum(r) for r in dm]
    D = [sorted(euclid(p, q) for q in pts) for p in pts]
    k = int(math.sqrt(n))
    fit = [sum(S[j] for j in range(n) if dm[j][i]) + 1.0 / (D[i][k] + 2.0) for i in range(n)]
    nd = [i for i in range(n) if fit[i] <= 1]
    if len(nd) <= size:
        order = sorted(range(n), key=lambda i: fit[i])
        if len(order) > size and close(fit[order[size - 1]], fit[order[size]]):
            return fit, None
        return fit, set(order[:size])
    env = list(nd)
    while len(env) > size:
        keys = {i: sorted(euclid(pts[i], pts[j]) for j in env) for i in env}
        m = min(env, key=lambda i: keys[i])
        ties = [i for i in env if all(close(x, y) for x, y in zip(keys[i], keys[m]))]
        near = [i for i in env if i != m and any(x != y and close(x, y) for x, y in zip(keys[i], keys[m]))]
        if near or (len(ties) > 1 and any(pts[i] != pts[m] for i in ties)):
            return fit, None
        env.remove(m)
    return fit, set(env)


def c_spea2(B):
    for ps, d in pools(B, 700, 15000, lo=2):
        size = B.rng.randint(1, len(ps))
        cut = B.rng.choice([0, 0, B.rng.randrange(0, len(ps))])
        a = algs.simple(B, "SPEA2", [[0.0] * d for _ in range(size)], [(-10, 1e10)] * d, idfits(d))
        if not all(hasattr(a, m) for m in ("calculate_fitnesses", "environmental_selection")):
            return
        mk = lambda p: {"value": list(p), "objectives": list(p)}
        arch, pop = [mk(p) for p in ps[:cut]], [mk(p) for p in ps[cut:]]
        inp = (size, cut, ps)
        B.case(inp)
        ok, r = B.run(inp, lambda: (a.calculate_fitnesses(pop, arch), a.environmental_selection(pop, arch))[1])
        if ok:
            ids = {id(x): i for i, x in enumerate(arch + pop)}
            B.expect(len(r) == size, inp, "archive of %d, configured %d" % (len(r), size))
            if not B.expect(all(id(x) in ids for x in r) and len({id(x) for x in r}) == len(r), inp, "archive members are not distinct members of the pool"):
                return
            fit, want = spea2_oracle(ps, size)
            for x in arch + pop:
                if "fitness" in x:
                    B.expect(close(x["fitness"], fit[ids[id(x)]]), inp, lambda: "fitness of %r is %r, should be %r" % (x["value"], x["fitness"], fit[ids[id(x)]]))
            if want is not None:
                B.expect(multiset([ps[ids[id(x)]] for x in r]) == multiset([ps[i] for i in want]), inp,
                         lambda: "kept %r, should keep %r" % (sorted(ps[ids[id(x)]] for x in r), sorted(ps[i] for i in want)))


def c_spea2_step(B):
    for _ in B.loop(40, 1500):
        d = B.rng.choice([1, 2, 3])
        fits = objectives(B.rng.randrange(4), d)
        pop = [inbox(B.rng, [(0, 2)] * d) for _ in range(B.rng.choice([3, 5, 8]))]
        seed = B.rng.random()
        inp = (pop, seed)
        B.case(inp)
        random.seed(seed)
        a = algs.simple(B, "SPEA2", [list(p) for p in pop], [(0, 2)] * d, fits)
        for _ in range(4):
            union = [list(x) for x in a.population] + [list(x["value"]) for x in a.archive]
            ok, _ = B.run(inp, a.step)
            if not ok:
                return
            vals = [list(x) for x in a.finalized_population()]
            B.expect(len(vals) == len(pop), inp, "archive of %d, configured %d" % (len(vals), len(pop)))
            B.expect(len(a.population) == len(pop), inp, "population size changed")
            mu, mv = multiset(union), multiset(vals)
            B.expect(all(mu.get(k, 0) >= c for k, c in mv.items()), inp, "archive holds solutions that were not in the pool")
            pts = [[f(x) for f in fits] for x in union]
            _, want = spea2_oracle(pts, len(pop))
            if want is not None:
                B.expect(multiset([[f(x) for f in fits] for x in vals]) == multiset([pts[i] for i in want]), inp, "archive is not the SPEA2 selection of the pool")


def ibea_oracle(pts, size, kappa):
    n, d = len(pts), len(pts[0])
    eps = 2.0 ** -52
    lo = [min(p[k] for p in pts) for k in range(d)]
    hi = [max(p[k] for p in pts) for k in range(d)]
    sc = [[(p[k] - lo[k]) / (hi[k] - lo[k] + eps) for k in range(d)] for p in pts]
    I = [[max(a - b for a, b in zip(x, y)) for y in sc] for x in sc]
    c = max(abs(v) for r in I for v in r)
    w = abs(c * kappa + eps)
    fit = {i: sum(-math.exp(-I[j][i] / w) for j in range(n) if j != i) for i in range(n)}
    left = set(range(n))
    while len(left) > size:
        m = min(left, key=lambda i: fit[i])
        ties = [i for i in left if i != m and close(fit[i], fit[m], 1e-7)]
        if any(pts[i] != pts[m] for i in ties):
            return None
        left.remove(m)
        for i in left:
            fit[i] += math.exp(-I[m][i] / w)
    return left


def c_ibea(B):
    I = B.get("algorithms.IBEA.IBEA:IBEA")
    for ps, d in pools(B, 500, 12000, lo=2):
        size = B.rng.randint(1, len(ps))
        a = algs.simple(B, "IBEA", [list(p) for p in ps[:size]], [(-10, 1e10)] * d, idfits(d))
        if not all(hasattr(a, m) for m in ("_calculate_fitness", "_environmental_selection", "_scale_objectives")) or not hasattr(I, "Individual"):
            return
        a.individuals = a.individuals + [I.Individual(list(p)) for p in ps[size:]]
        pool = list(a.individuals)
        inp = (size, ps)
        B.case(inp)
        ok, _ = B.run(inp, lambda: (a._scale_objectives(), a._calculate_fitness(), a._environmental_selection()))
        if ok:
            kept = list(a.individuals)
            ids = {id(x): i for i, x in enumerate(pool)}
            B.expect(len(kept) == size, inp, "%d survivors of %d" % (len(kept), size))
            if not B.expect(all(id(x) in ids for x in kept) and len({id(x) for x in kept}) == len(kept), inp, "survivors are not distinct members of the pool"):
                return
            want = ibea_oracle(ps, size, a.k)
            if want is not None:
                B.expect(multiset([ps[ids[id(x)]] for x in kept]) == multiset([ps[i] for i in want]), inp,
                         lambda: "kept %r, should keep %r" % (sorted(ps[ids[id(x)]] for x in kept), sorted(ps[i] for i in want)))


def c_ibea_step(B):
    for _ in B.loop(40, 1000):
        d = B.rng.choice([1, 2])
        fits = objectives(B.rng.randrange(3), d)
        pop = [inbox(B.rng, [(0, 2)] * d) for _ in range(B.rng.choice([4, 6]))]
        seed = B.rng.random()
        inp = (pop, seed)
        B.case(inp)
        random.seed(seed)
        a = algs.simple(B, "IBEA", [list(p) for p in pop], [(0, 2)] * d, fits)
        for _ in range(3):
            pool = list(a.individuals)
            pts = [[f(x.v) for f in fits] for x in pool]
            ok, _ = B.run(inp, a.step)
            if not ok:
                return
            old = {id(x): i for i, x in enumerate(pool)}
            kept = [x for x in a.individuals if id(x) in old]
            B.expect(len(kept) == len(pop), inp, "%d survivors of %d" % (len(kept), len(pop)))
            B.expect(len(a.individuals) == len(pop) + int(0.5 * len(pop)), inp, "wrong number of individuals")
            want = ibea_oracle(pts, len(pop), a.k)
            if want is not None:
                B.expect(multiset([pts[old[id(x)]] for x in kept]) == multiset([pts[i] for i in want]), inp, "survivors are not the IBEA selection")
        ok, r = B.run(inp, lambda: list(a.finalized_population()))
        if ok:
            B.expect(len(r) == len(pop), inp, "finalized population has %d of %d" % (len(r), len(pop)))


def hv(pts, ref):
    """inclusion-exclusion"""
    ps = [p for p in pts if all(x <= r for x, r in zip(p, ref))]
    tot = 0.0
    for k in range(1, len(ps) + 1):
        for c in itertools.combinations(ps, k):
            v = 1.0
            for i in range(len(ref)):
                v *= ref[i] - max(p[i] for p in c)
            tot += v if k % 2 else -v
    return tot


def c_smsemoa(B):
    M = "algorithms.SMSEMOA.SMSEMOA:"
    Ind = B.get(M + "Individual")
    for ps, d in pools(B, 500, 10000, lo=2, hi=9):
        if len(ps) > 10:
            continue
        ref = [B.rng.choice([5.0, 2.0, 1.0])] * d
        a = algs.simple(B, "SMSEMOA", [[0.0] * d for _ in range(2)], [(-10, 1e10)] * d, idfits(d), reference_point=ref)
        if not hasattr(a, "reduce_population"):
            return
        pool = []
        for p in ps:
            i = Ind(list(p))
            i.objectives = list(p)
            pool.append(i)
        inp = (ref, ps)
        B.case(inp)
        ok, r = B.run(inp, a.reduce_population, list(pool))
        if not ok:
            return
        ids = {id(x): i for i, x in enumerate(pool)}
        if not B.expect(len(r) == len(ps) - 1 and all(id(x) in ids for x in r) and len({id(x) for x in r}) == len(r), inp, "does not remove exactly one individual"):
            return
        gone = (set(range(len(ps))) - {ids[id(x)] for x in r}).pop()
        last = fronts(ps)[-1]
        if not B.expect(gone in last, inp, "removed %r, which is not in the last front" % (ps[gone],)):
            return
        tot = hv([ps[i] for i in last], ref)
        con = {i: tot - hv([ps[j] for j in last if j != i], ref) for i in last}
        B.expect(con[gone] <= min(con.values()) + 1e-9 * max(1.0, abs(tot)), inp, lambda: "removed %r with contribution %r; contributions %r" % (ps[gone], con[gone], con))


def c_smsemoa_step(B):
    for _ in B.loop(30, 800):
        d = B.rng.choice([1, 2])
        fits = objectives(B.rng.randrange(3), d)
        pop = [inbox(B.rng, [(0, 2)] * d) for _ in range(B.rng.choice([3, 5]))]
        inp = (pop,)
        B.case(inp)
        a = algs.simple(B, "SMSEMOA", [list(p) for p in pop], [(0, 2)] * d, fits)
        for _ in range(4):
            ok, _ = B.run(inp, a.step)
            if not ok:
                return
            B.expect(len(a.finalized_population()) == len(pop), inp, "population size changed to %d" % len(a.finalized_population()))


def c_leader(B):
    M = "algorithms.OMOPSO.OMOPSO:"
    L, Ind = B.get(M + "LeaderArchive"), B.get(M + "Individual")
    if not (hasattr(L, "prune") and hasattr(L, "crowding")):
        return
    for _ in B.loop(400, 10000):
        n = B.rng.randrange(2, 9)
        ps = front2(B.rng, n)
        B.rng.shuffle(ps)
        a = L(n - 1)
        for p in ps:
            i = Ind(list(p))
            i.objectives = list(p)
            a.archive.append(i)
        pool = list(a.archive)
        B.case(ps)
        ok, _ = B.run(ps, a.prune)
        if not ok:
            return
        kept = list(a)
        if not B.expect(len(kept) == n - 1 and all(any(x is y for y in pool) for x in kept), ps, "prune does not remove exactly one"):
            return
        gone = [x for x in pool if not any(x is y for y in kept)][0]
        B.expect(all(gone.crowd_val >= x.crowd_val for x in kept), ps, "the pruned leader does not have the worst crowding value")
        srt = sorted(ps)
        for x in pool:
            i = srt.index(list(x.objectives))
            if 0 < i < n - 1:
                want = sum(abs(x.objectives[k] - sorted(p[k] for p in ps)[sorted(p[k] for p in ps).index(x.objectives[k]) - 1]) / (max(p[k] for p in ps) - min(p[k] for p in ps)) for k in (0, 1))
                B.expect(close(x.crowd_val, want, 1e-6), ps, lambda: "crowding value %r, should be %r" % (x.crowd_val, want))
            else:
                B.expect(x.crowd_val == float("inf"), ps, "an extreme leader has a finite crowding value")


CHECKS = [("NSGAII.selection", c_nsgaii), ("NSGAII.crowding", c_crowding), ("NSGAII.step", c_step), ("NSGAIII.create_final_population", c_nsga3), ("NSGAIII.step", c_nsga3_step),
          ("NSLS.next_generation", c_nsls), ("NSLS.step", c_nsls_step), ("SPEA2.selection", c_spea2), ("SPEA2.step", c_spea2_step),
          ("IBEA.selection", c_ibea), ("IBEA.step", c_ibea_step), ("SMSEMOA.reduce", c_smsemoa), ("SMSEMOA.step", c_smsemoa_step), ("OMOPSO.prune", c_leader)]
