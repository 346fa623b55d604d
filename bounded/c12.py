"""C12: the hierarchic genetic search keeps its node tree within its limits (classic variant)"""
from gens import *
import algs
import numpy as np

EPS = np.finfo(float).eps


def fake(B, log):
    Driver = B.get("algorithms.base.driver:Driver")

    class MA:
        def __init__(self, d):
            self.driver = d

        def emit_result(self):
            from algorithms.base.model import ProgressMessage
            return ProgressMessage(self.driver.step_no, self.driver.cost)

        def nominate_delegates(self):
            return [list(x) for x in self.driver.pop[:B.rng.randint(1, len(self.driver.pop))]]

        def get_population(self):
            return self.driver.pop

    class D(Driver):
        def __init__(self, population, dims, fitnesses, message_adapter_factory=None, **kw):
            super().__init__(message_adapter_factory=MA)
            self.start = [list(p) for p in population]
            self.pop = [list(p) for p in population]
            self.kw = kw
            self.dims = dims
            self.cost = B.rng.choice([0, 0, 5])
            self.fitnesses = fitnesses
            log.append(self)

        def step(self):
            self.cost += B.rng.choice([0, 1, 3, 10])
            for p in self.pop:
                if B.rng.random() < 0.5:
                    for i, (lo, hi) in enumerate(self.dims):
                        p[i] = min(hi, max(lo, p[i] + B.rng.uniform(-0.1, 0.1) * (hi - lo)))

        def finalized_population(self):
            return [list(p) for p in self.pop]

        @property
        def population(self):
            return self.pop
    return D, MA


def build(B, ds, fits, **over):
    C = B.get("algorithms.HGS.classic.ClassicHGS:ClassicHGS")
    log = []
    D, MA = fake(B, log)
    pop = [inbox(B.rng, ds) for _ in range(20)]
    kw = algs.hgs_kwargs(pop, ds, fits, D, MA, **over)
    h = C(**kw)
    return h, kw, log


def params(B):
    r = B.rng
    return dict(max_level=r.choice([0, 1, 2, 2, 2]), max_sprouts_no=r.choice([0, 1, 2, 3, 5]), sproutiveness=r.choice([1, 2, 3]), metaepoch_len=r.choice([[1, 1, 1], [2, 3, 1], [1, 2, 3]]),
                cost_modifiers=r.choice([[1.0, 1.0, 1.0], [0.25, 0.5, 1.0], [3.0, 2.0, 0.0]]), comparison_multipliers=r.choice([[0.2, 0.05, 0.02], [1.0, 0.0, 0.0], [0.3, 0.3, 0.3]]),
                population_sizes=r.choice([[8, 5, 4], [4, 1, 1], [6, 3, 2]]), min_progress_ratio=r.choice([[0.1, 0.05, 0.01], [0.0, 1e-5, 1e-4], [0.5, 0.4, 0.8]]))


NEED = ("alive", "ripe", "level", "population", "sprouts", "delegates", "driver", "hypervolume", "old_hypervolume")


def nodes(h):
    return list(h.nodes)


def usable(h):
    return hasattr(h, "nodes") and hasattr(h, "root") and hasattr(h, "level_nodes") and all(hasattr(n, a) for n in h.nodes for a in NEED)


def tree_ok(B, h, kw, inp):
    ns = nodes(h)
    B.expect(all(n.level <= kw["max_level"] for n in ns), inp, "a node lies at level %d, the maximum is %d" % (max(n.level for n in ns), kw["max_level"]))
    B.expect(all(s.level == n.level + 1 for n in ns for s in n.sprouts), inp, "a sprout is not one level below its parent")
    B.expect(sorted(map(id, ns)) == sorted(id(n) for l in h.level_nodes.values() for n in l) and all(n.level == l for l, v in h.level_nodes.items() for n in v), inp, "level lists disagree with the node list")
    kids = [id(s) for n in ns for s in n.sprouts]
    B.expect(len(kids) == len(set(kids)) and set(kids) | {id(h.root)} == set(map(id, ns)), inp, "nodes and sprouts do not form a tree")


def metaepoch(B, h, kw, inp):
    before = [(n, n.alive, n.driver.step_no, n.driver.cost, getattr(n, "_spent", 0)) for n in nodes(h)]
    c0 = h.cost
    h.run_metaepoch()
    want = 0.0
    for n, alive, steps, cost, spent in before:
        B.expect(n.driver.step_no - steps == (kw["metaepoch_len"][n.level] if alive else 0), inp, "level %d %s node took %d steps" % (n.level, "live" if alive else "dead", n.driver.step_no - steps))
        if alive:
            want += kw["cost_modifiers"][n.level] * (n.driver.cost - spent)
            n._spent = n.driver.cost
            B.expect(n.population == n.driver.finalized_population(), inp, "a node's population is not that of its driver")
    B.expect(close(h.cost - c0, want), inp, "the cost grew by %r, nodes that ran spent (weighted) %r" % (h.cost - c0, want))
    B.expect(len(h.nodes) == len(before) and all(n.alive == a for n, a, *_ in before), inp, "the metaepoch changed the set of nodes")


def trim_oracle(h, kw):
    """expected (alive, ripe) per node, given hypervolumes and populations"""
    st = {n: [n.alive, n.ripe] for n in h.nodes}
    center = {n: getattr(n, "center", None) for n in h.nodes}
    sure = True
    for lev in (2, 1, 0):
        ns = h.level_nodes[lev]
        for n in ns:
            if st[n][0] and n.old_hypervolume is not None and n.old_hypervolume > 0:
                gain, need = n.hypervolume / (n.old_hypervolume + EPS) - 1.0, h.min_progress_ratio[lev] / 2 ** lev
                if abs(gain - need) < 1e-9 * max(1, abs(need)) and gain != need:
                    sure = False
                if gain < need:
                    st[n] = [False, True]
                    center[n] = np.mean(n.population, axis=0)
        dead = [n for n in ns if not st[n][0]]
        done = []
        for n in [n for n in ns if st[n][0]]:
            center[n] = np.mean(n.population, axis=0)
            for o in [o for o in dead if st[o][1]] + done:
                dist = np.linalg.norm(np.array(center[o]) - np.array(center[n]))
                if abs(dist - h.min_dists[lev]) < 1e-9 and dist != h.min_dists[lev]:
                    sure = False
                if dist < h.min_dists[lev]:
                    st[n][0] = False
                    break
            done.append(n)
    return st, sure


def trim(B, h, kw, inp):
    for n in nodes(h):
        if n.alive and B.rng.random() < 0.7:
            n.old_hypervolume = B.rng.choice([float("-inf"), 0.0, 1.0, 2.0, 10.0])
            n.hypervolume = B.rng.choice([float("-inf"), 0.0, 1.0, 1.0 + 2 * B.rng.choice(list(h.min_progress_ratio)), 2.0, 2.01, 2.05, 2.2, 10.0, 10.5, 11.0])
            if n.old_hypervolume == float("-inf"):
                n.hypervolume = B.rng.choice([0.0, 3.0])
        elif n.alive and n.old_hypervolume not in (None, float("-inf")) and not (n.old_hypervolume > 0):
            pass
    want, sure = trim_oracle(h, kw)
    before = {n: (n.alive, n.ripe) for n in h.nodes}
    h.trim_sprouts()
    if sure:
        for n in h.nodes:
            B.expect([bool(n.alive), bool(n.ripe)] == [bool(x) for x in want[n]], inp, "level %d node (hv %r -> %r, alive/ripe %r) became %r, expected %r" % (n.level, n.old_hypervolume, n.hypervolume, before[n], [n.alive, n.ripe], want[n]))
    for n in h.nodes:
        B.expect(before[n][0] or not n.alive, inp, "pruning revived a node")


def sprout(B, h, kw, inp):
    old = nodes(h)
    ids = set(map(id, old))
    lists = {n: list(n.sprouts) for n in old}
    alive0 = {n: sum(1 for s in n.sprouts if s.alive) for n in old}
    centers = {l: [np.array(n.center) for n in h.level_nodes[l] if len(n.population) > 0] for l in h.level_nodes}
    h.release_new_sprouts()
    tree_ok(B, h, kw, inp)
    for n in old:
        new = [s for s in n.sprouts if id(s) not in ids]
        live = sum(1 for s in n.sprouts if s.alive)
        B.expect(not new or live <= kw["max_sprouts_no"], inp, "%d live sprouts, allowed %d" % (live, kw["max_sprouts_no"]))
        B.expect(len(new) <= kw["sproutiveness"], inp, "%d new sprouts in one metaepoch, allowed %d" % (len(new), kw["sproutiveness"]))
        B.expect(not new or n.ripe, inp, "a node that is not ripe sprouted")
        B.expect(n.sprouts[:len(lists[n])] == lists[n], inp, "sprouts were lost")
        if n.level < kw["max_level"]:
            lev = n.level + 1
            ok = [d for d in n.delegates if not any(np.linalg.norm(np.array(d) - c) < h.min_dists[lev] for c in centers[lev])]
            for s in new:
                st = s.driver.start
                B.expect(s.alive and not s.ripe, inp, "a new sprout is not live")
                B.expect(len(st) == kw["population_sizes"][lev], inp, "a new sprout has %d solutions, configured %d" % (len(st), kw["population_sizes"][lev]))
                B.expect(st[0] in [list(d) for d in n.delegates], inp, "a new sprout does not start from a delegate")
                B.expect(st[0] in [list(d) for d in ok], inp, "the centre of a new sprout is redundant with a populated node of its level")
                B.expect(all(within(v, h.dims) for v in st), inp, "a sprout's solution is outside the domain")
            reach = n is h.root or parent_ripe(h, n)
            if n.ripe and reach:
                want = max(0, min(len(ok), kw["sproutiveness"], kw["max_sprouts_no"] - alive0[n]))
                B.expect(len(new) == want, inp, "%d new sprouts, %d can be released" % (len(new), want))


def parent_ripe(h, n):
    for p in h.nodes:
        if any(s is n for s in p.sprouts):
            return p.ripe and (p is h.root or parent_ripe(h, p))
    return False


def revive(B, h, kw, inp, cfg):
    before = {n: (n.alive, n.ripe) for n in h.nodes}
    thr = list(h.min_progress_ratio)
    h.revive_root()
    none = not any(a for a, _ in before.values())
    for n, (a, r) in before.items():
        want = (True, False) if none and r else (a, r)
        B.expect((n.alive, n.ripe) == want, inp, "node (alive, ripe) %r became %r with %s live node" % ((a, r), (n.alive, n.ripe), "no" if none else "a"))
    B.expect([close(x, y / 2 if none else y) for x, y in zip(h.min_progress_ratio, thr)] == [True] * 3, inp, "progress thresholds %r became %r" % (thr, list(h.min_progress_ratio)))
    B.expect(kw["min_progress_ratio"] == cfg, inp, "the configuration was changed")


def c_phases(B):
    for _ in B.loop(120, 2500):
        ds = dims(B.rng, 2)
        p = params(B)
        p["min_progress_ratio"] = list(p["min_progress_ratio"])
        cfg = list(p["min_progress_ratio"])
        seed = B.rng.randrange(10 ** 6)
        random.seed(seed)
        inp = (sorted(p.items()), ds, seed)
        B.case(inp)
        try:
            h, kw, log = build(B, ds, objectives(0, 2), **p)
        except TypeError:
            return
        if not usable(h) or not all(hasattr(h, m) for m in ("run_metaepoch", "trim_sprouts", "release_new_sprouts", "revive_root")):
            return
        h.dims = getattr(h, "dims", ds)
        B.expect(len(log) == 1 and len(log[0].start) == kw["population_sizes"][0], inp, "root population size %d" % len(log[0].start))
        try:
            for _ in range(B.rng.choice([2, 4, 6])):
                metaepoch(B, h, kw, inp)
                trim(B, h, kw, inp)
                sprout(B, h, kw, inp)
                revive(B, h, kw, inp, cfg)
                if B.failures:
                    break
        except Exception as ex:
            import traceback
            B.fail(inp, "raised " + traceback.format_exc()[-700:])


def c_steps(B):
    """whole steps only: limits, cost and revival seen from outside"""
    for _ in B.loop(60, 1200):
        ds = dims(B.rng, 2)
        p = params(B)
        cfg = list(p["min_progress_ratio"])
        p["min_progress_ratio"] = list(cfg)
        seed = B.rng.randrange(10 ** 6)
        random.seed(seed)
        inp = ("steps", sorted(p.items()), ds, seed)
        B.case(inp)
        h, kw, log = build(B, ds, objectives(B.rng.choice([0, 2]), 2), **p)
        spent = {}
        for k in range(B.rng.choice([3, 6])):
            alive = [n for n in h.nodes if n.alive] if usable(h) else None
            existing = list(log)
            steps = {id(d): d.step_no for d in existing}
            c0 = h.cost
            good, _ = B.run(inp, h.step)
            if not good:
                break
            want = 0.0
            level = {id(n.driver): n.level for n in h.nodes}
            for d in existing:
                if d.step_no > steps[id(d)]:
                    want += kw["cost_modifiers"][level[id(d)]] * (d.cost - spent.get(id(d), 0))
                    spent[id(d)] = d.cost
            B.expect(close(h.cost - c0, want), inp, "step %d: cost grew by %r, the nodes that ran spent %r" % (k, h.cost - c0, want))
            if alive is not None:
                ran = {id(d) for d in existing if d.step_no > steps[id(d)]}
                B.expect(ran == {id(n.driver) for n in alive}, inp, "step %d: the nodes that ran are not the live ones" % k)
                tree_ok(B, h, kw, inp)
                for n in h.nodes:
                    new = [s for s in n.sprouts if id(s.driver) not in {id(d) for d in existing}]
                    B.expect(len(new) <= kw["sproutiveness"], inp, "%d new sprouts" % len(new))
                    B.expect(not new or sum(1 for s in n.sprouts if s.alive) <= kw["max_sprouts_no"], inp, "too many live sprouts")
            B.expect(list(kw["min_progress_ratio"]) == cfg, inp, "the configuration was changed")
            fp = h.finalized_population()
            B.expect(multiset(fp) == multiset(x for n in h.nodes for x in n.population), inp, "the final population is not the union of the nodes'")


def c_redundant(B):
    fs = [f for f in (B.opt("algorithms.HGS.tools:redundant"), B.opt("algorithms.HGS.classic.ClassicHGS:redundant")) if f]
    for _ in B.loop(1500):
        d = B.rng.choice([1, 2, 3])
        a, b = points(B.rng, B.rng.randint(1, 4), d, "half"), points(B.rng, B.rng.randint(1, 4), d, "half")
        if B.rng.random() < 0.5:
            a, b = a[:1], b[:1]
        mean = lambda ps: [sum(p[i] for p in ps) / len(ps) for i in range(d)]
        dist = math.sqrt(sum((x - y) ** 2 for x, y in zip(mean(a), mean(b))))
        m = B.rng.choice([0.0, 0.5, 1.0, dist * 0.9, dist * 1.1 + 1e-6, 3.0])
        if abs(m - dist) < 1e-9 and len(a) + len(b) > 2:
            continue
        B.case((a, b, m))
        for f in fs:
            good, v = B.run((a, b, m), f, a, b, m)
            if good:
                B.expect(bool(v) == (dist < m), (a, b, m), "redundant: %r at distance %r" % (v, dist))


def c_delegate(B):
    fs = [f for f in (B.opt("algorithms.HGS.tools:population_from_delegate"), B.opt("algorithms.HGS.classic.ClassicHGS:population_from_delegate")) if f]
    for _ in B.loop(600):
        ds = dims(B.rng, B.rng.choice([1, 2, 3]))
        v = inbox(B.rng, ds)
        size, rate = B.rng.randint(1, 9), B.rng.choice([0.0, 0.5, 1.0])
        keep = list(v)
        B.case((ds, v, size, rate))
        for f in fs:
            good, p = B.run((ds, v, size, rate), f, v, size, ds, rate, 15.0)
            if good:
                B.expect(len(p) == size and list(p[0]) == keep and p[0] is not v and v == keep, (ds, v, size), "population of %d, first %r" % (len(p), p[0]))
                B.expect(all(within(x, ds) for x in p), (ds, v, size), "outside the domain")
                B.expect(len({id(x) for x in p}) == size, (ds, v, size), "solutions share a list")
                if rate == 0.0:
                    B.expect(all(list(x) == keep for x in p), (ds, v, size), "rate 0 changed the delegate")


def c_real(B):
    """hierarchic search over the real algorithms"""
    C = B.get("algorithms.HGS.HGS:HGS")
    for name in ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "NSGAIII", "OMOPSO", "JGBL"]:
        if not B.more():
            return
        ds = [(0, 1), (-1, 2)]
        fits = objectives(0, 2)
        pop = [inbox(B.rng, ds) for _ in range(24)]
        alg = algs.cls(B, name)

        def driver(population, dims, fitnesses, fitness_archive=None, trim_function=None, message_adapter_factory=None, name=name, **kw):
            return algs.simple(B, name, population, dims, fitnesses, archive=fitness_archive, trim=trim_function, adapter_factory=message_adapter_factory)
        inp = (name, pop)
        B.case(inp)
        kw = algs.hgs_kwargs(pop, ds, fits, driver, algs.adapter(B, name, "HGS"), population_sizes=[12, 10, 9], cost_modifiers=[1.0, 1.0, 1.0], metaepoch_len=[1, 1, 1])
        good, h = B.run(inp, lambda: C(**kw))
        if not good:
            continue
        last = 0
        for _ in range(3):
            good, _ = B.run(inp, h.next_step)
            if not good:
                break
            B.expect(h.cost >= last, inp, "cost decreases")
            last = h.cost
            inner = getattr(h, "hgs", h)
            if usable(inner):
                tree_ok(B, inner, kw, inp)
                B.expect(close(h.cost, sum(n.driver.cost for n in inner.nodes if n.population)), inp, "cost %r, nodes spent %r" % (h.cost, [n.driver.cost for n in inner.nodes]))


CHECKS = [("phases of a step", c_phases), ("whole steps", c_steps), ("redundancy", c_redundant), ("population from delegate", c_delegate), ("real algorithms", c_real)]
