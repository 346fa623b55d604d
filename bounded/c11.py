"""C11: islands partition the population; migration keeps every solution; topology; weighted choice"""
from gens import *
import algs

DRV = ["SPEA2", "IBEA", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"]


def topo(B, w):
    return B.get("algorithms.IMGA.topology:TorusTopology")(w)


def c_topology(B):
    for w in range(1, 9):
        for n in range(0, 61):
            B.case((w, n))
            good, t = B.run((w, n), lambda: [set(x) for x in topo(B, w).create(n)])
            if not good:
                return
            B.expect(len(t) == n, (w, n), "%d neighbour sets" % len(t))
            B.expect(all(0 <= j < n for s in t for j in s), (w, n), "invalid neighbour index %r" % t)
            if len(t) == n and all(0 <= j < n for s in t for j in s):
                bad = [(i, j) for i in range(n) for j in t[i] if i not in t[j]]
                B.expect(not bad, (w, n), "asymmetric links %r" % bad[:5])


class FakeDriver:
    def __init__(self, population=None, **kw):
        self.population = population
        self.individuals = population
        self.kw = kw
        self.cost = 0
        self.max_budget = None

        class MA:
            def emigrate(s, m):
                return m

            def immigrate(s, m):
                pass
        self.message_adapter = MA()


def imga(B, pop, n, driver, migrants=2, width=4, adapter=None, **extra):
    C = B.get("algorithms.IMGA.IMGA:IMGA")
    return C(population=pop, dims=extra.pop("dims", [(0, 1)] * len(pop[0]) if pop else []), fitnesses=extra.pop("fitnesses", []), islands_number=n, migrants_number=migrants, epoch_length=1, driver=driver,
             mutation_eta=20.0, crossover_eta=20.0, mutation_rate=0.3, crossover_rate=0.9, topology=topo(B, width), driver_message_adapter_factory=adapter)


def c_partition(B):
    for _ in B.loop(2000, 20000):
        n = B.rng.randint(1, 12)
        m = B.rng.choice([n, n + 1, 2 * n - 1, 2 * n, B.rng.randint(0, 60), B.rng.randint(n, 70), 64])
        pop = [[float(i), float(i % 3)] for i in range(m)]
        if m > 2 and B.rng.random() < 0.3:
            pop[1] = list(pop[0])
        inp = (m, n)
        B.case(inp)
        try:
            alg = imga(B, list(pop), n, FakeDriver)
        except Exception as ex:
            B.fail(inp, "raised %r" % ex)
            continue
        parts = [list(i.driver.population) for i in alg.islands]
        B.expect(len(parts) == n, inp, "%d islands" % len(parts))
        ids = sorted(id(x) for p in parts for x in p)
        B.expect(ids == sorted(id(x) for x in pop) or multiset(x for p in parts for x in p) == multiset(pop), inp, "islands hold %d solutions of %d" % (len(ids), m))
        sizes = [len(p) for p in parts]
        B.expect(max(sizes) - min(sizes) <= 1, inp, "island sizes %r" % sizes)


def vecs(drv):
    return [getattr(i, "v", None) or getattr(i, "value", None) or (i["value"] if isinstance(i, dict) else None) for i in drv.individuals]


def c_migration(B):
    """real drivers: the multiset over all islands and the size of every island are unchanged; every migrant goes to a neighbour"""
    for _ in B.loop(160, 3000):
        name = B.rng.choice(DRV)
        n = B.rng.choice([1, 2, 3, 3, 4, 5, 6])
        w = B.rng.choice([1, 2, 3, 4])
        ds = [(0, 1)] * 2
        k = B.rng.choice([9, 12])
        if B.rng.random() < 0.5:
            pop = [inbox(B.rng, ds) for _ in range(k * n + B.rng.randrange(n))]
        else:
            pop = [[B.rng.choice([0.0, 0.25, 0.5, 1.0]), B.rng.choice([0.0, 0.5])] for _ in range(k * n)]
        fits = objectives(B.rng.choice([0, 1]), 2)
        C = algs.cls(B, name)
        inp = (name, n, w, pop)
        B.case(inp)

        def driver(population, dims, fitnesses, message_adapter_factory, **kw):
            return algs.simple(B, name, population, dims, fitnesses, adapter_factory=message_adapter_factory)
        try:
            ad = algs.adapter(B, name, "IMGA")
            alg = imga(B, [list(p) for p in pop], n, driver, migrants=B.rng.choice([1, 2]), width=w, adapter=ad, dims=ds, fitnesses=fits)
        except TypeError:
            continue
        for i in alg.islands:
            if B.rng.random() < 0.4 and name != "NSLS":
                i.driver.next_step()
        if any(x is None for i in alg.islands for x in vecs(i.driver)):
            return
        objs = [(j, id(x), tuple(v)) for j, i in enumerate(alg.islands) for x, v in zip(i.driver.individuals, vecs(i.driver))]
        keep = [x for i in alg.islands for x in i.driver.individuals]
        before = [multiset(vecs(i.driver)) for i in alg.islands]
        topo_ = [set(x) for x in alg.topology]
        good, _ = B.run(inp, alg.migration)
        if not good:
            continue
        after = [multiset(vecs(i.driver)) for i in alg.islands]
        tot = lambda ms: sorted((k, sum(m.get(k, 0) for m in ms)) for k in {k for m in ms for k in m})
        B.expect(tot(before) == tot(after), inp, "the multiset of solutions changed")
        B.expect([sum(m.values()) for m in before] == [sum(m.values()) for m in after], inp, "island sizes %r became %r" % ([sum(m.values()) for m in before], [sum(m.values()) for m in after]))
        # identity: where each solution object went
        was = {i: j for j, i, _ in objs}
        now = {}
        for j, i in enumerate(alg.islands):
            for x in i.driver.individuals:
                now.setdefault(id(x), []).append(j)
        if set(was) == set(now):
            B.expect(all(len(v) == 1 for v in now.values()), inp, "a solution is on two islands")
            moved = [(was[x], v[0]) for x, v in now.items() if v[0] != was[x]]
            B.expect(all(b in topo_[a] for a, b in moved), inp, "a solution moved to an island that is not a neighbour: %r" % moved)
            cnt = {}
            for m in moved:
                cnt[m] = cnt.get(m, 0) + 1
            B.expect(all(cnt.get((a, b), 0) == alg.migrants_number for a in range(n) for b in topo_[a] if a != b), inp, "migrants per link %r" % cnt)


def c_cost(B):
    """the cost of the island model is the sum of what its islands spent"""
    import itertools
    for _ in B.loop(6, 100):
        name = B.rng.choice(["NSGAII", "SPEA2", "IBEA", "SMSEMOA"])
        n = B.rng.choice([2, 3])
        ds = [(0, 1)] * 2
        fits = objectives(0, 2)
        C = Counter(fits[0])
        pop = [inbox(B.rng, ds) for _ in range(12 * n)]
        ad = algs.adapter(B, name, "IMGA")

        def driver(population, dims, fitnesses, message_adapter_factory, **kw):
            return algs.simple(B, name, population, dims, fitnesses, adapter_factory=message_adapter_factory)
        alg = imga(B, pop, n, driver, migrants=1, adapter=ad, dims=ds, fitnesses=fits)
        inp = (name, n, pop)
        B.case(inp)
        last = 0
        for _ in range(3):
            alg.next_step()
            B.expect(alg.cost == sum(i.driver.cost for i in alg.islands), inp, "cost %r, islands spent %r" % (alg.cost, [i.driver.cost for i in alg.islands]))
            B.expect(alg.cost >= last, inp, "cost decreases")
            last = alg.cost
        fin = [tuple(x) for x in alg.finalized_population()]
        want = [tuple(x) for i in alg.islands for x in i.driver.finalized_population()]
        if name in ("NSGAII", "SPEA2", "SMSEMOA"):
            B.expect(sorted(fin) == sorted(want), inp, "final population is not the union of the islands'")


def c_weighted(B):
    wc = B.get("evotools.random_tools:weighted_choice")
    for _ in B.loop(3000):
        n = B.rng.randint(1, 7)
        ws = [B.rng.choice([0, 0, 0.5, 1, 2, B.rng.random()]) for _ in range(n)]
        if sum(ws) == 0:
            ws[B.rng.randrange(n)] = 1.0
        if B.rng.random() < 0.3:
            ws = [1 / (i + 1) for i in range(n)]
        tot = sum(ws)
        u = B.rng.choice([0.0, 0.5, 0.999, B.rng.random(), 0.25])
        saved = random.uniform
        asked = []
        random.uniform = lambda a, b: asked.append((a, b)) or a + (b - a) * u
        saved_r = random.random
        try:
            arg = [("e%d" % i, w) for i, w in enumerate(ws)]
            got = wc(iter(arg) if B.rng.random() < 0.5 else arg)
        except Exception as ex:
            B.fail((ws, u), "raised %r" % ex)
            continue
        finally:
            random.uniform = saved
        B.case((ws, u))
        i = int(got[1:])
        B.expect(ws[i] > 0, (ws, u), "chose %s of weight 0" % got)
        if asked == [(0, tot)]:
            r = tot * u
            cum = [sum(ws[:k]) for k in range(n + 1)]
            B.expect(cum[i] <= r + 1e-12 and r < cum[i + 1] + 1e-12, (ws, u), "draw %r is outside the interval of %s" % (r, got))


def c_weighted_dist(B):
    """share of each element over an even grid of draws is its weight"""
    wc = B.get("evotools.random_tools:weighted_choice")
    for ws in ([1, 1 / 2, 1 / 3, 1 / 4], [0, 1, 0, 3], [2.0], [0.1, 0.0, 0.9]):
        hits = [0] * len(ws)
        N = 4000
        saved = random.uniform
        try:
            for k in range(N):
                random.uniform = lambda a, b, k=k: a + (b - a) * ((k + 0.5) / N)
                hits[wc(list(enumerate(ws)))] += 1
        finally:
            random.uniform = saved
        B.case(ws)
        for h, w in zip(hits, ws):
            B.expect(abs(h / N - w / sum(ws)) < 0.01, ws, "chosen %r times of %d" % (hits, N))


CHECKS = [("topology", c_topology), ("partition", c_partition), ("migration", c_migration), ("cost", c_cost), ("weighted choice", c_weighted), ("weighted choice shares", c_weighted_dist)]
