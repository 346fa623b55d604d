"""C08: reported cost = number of solutions whose objectives were computed; remembered values are reused"""
from gens import *
import algs

CALLS = [n for n in algs.SIMPLE if n != "IBEA"]   # IBEA re-reads the objective functions; it is judged per solution below
ARCH = [n for n in CALLS if n != "BOGO"]


def setup(B, quick, thorough, names):
    for _ in B.loop(quick, thorough):
        name = B.rng.choice(names)
        d = B.rng.choice([2, 2, 3])
        ds = dims(B.rng, d)
        fs = objectives(B.rng.randrange(5), d)
        n = B.rng.choice([4, 5, 6, 9]) + (4 if name in ("OMOPSO", "NSGAIII", "NSLS") else 0)
        pop = [inbox(B.rng, ds) for _ in range(n)]
        if B.rng.random() < 0.3:
            pop[1] = list(pop[0])
        yield name, ds, fs, pop


def build(B, name, pop, ds, fs, archive, rate, trim=None):
    kw = {}
    if archive is not None:
        kw["archive"] = archive
    if trim is not None:
        kw["trim"] = trim
    return algs.simple(B, name, [list(p) for p in pop], ds, fs, rate=rate, crate=0.9 if rate else 0.0, **kw)


def steps(alg, n):
    for k in range(n):
        alg.next_step()
        yield k


def c_cost(B):
    """without an archive: after every step the cost is the number of solutions evaluated so far"""
    for name, ds, fs, pop in setup(B, 400, 8000, CALLS):
        counters = [Counter(f) for f in fs]
        inp = (name, ds, pop)
        B.case(inp)
        try:
            alg = build(B, name, pop, ds, counters, None, B.rng.choice([0.0, 0.3, 1.0]))
        except (TypeError, KeyError):
            continue
        last = alg.cost
        try:
            for k in steps(alg, B.rng.choice([1, 2, 4])):
                n = [len(c.calls) for c in counters]
                B.expect(len(set(n)) == 1, inp, "objectives evaluated unequally often: %r" % n)
                B.expect(alg.cost == n[0], inp, "after step %d the cost is %r, objectives were computed for %d solutions" % (k + 1, alg.cost, n[0]))
                B.expect(alg.cost >= last, inp, "cost decreases")
                last = alg.cost
        except Exception as ex:
            if isinstance(ex, algs_skip()):
                raise
            B.fail(inp, "raised %r" % ex)


def algs_skip():
    import run
    return (run.Skip,) if hasattr(run, "Skip") else ()


def c_archive(B):
    """with the fitness archive the hierarchic search uses: hits cost nothing, entries stay true, no solution is computed twice"""
    RAS = archives(B)
    for name, ds, fs, pop in setup(B, 400, 8000, ARCH):
        RA = B.rng.choice(RAS)
        if B.rng.random() < 0.3:
            e = B.rng.choice([1e-5, 1e-8, 1e-11])
            pop = [list(p) for p in pop]
            for i in range(0, len(pop) - 1, 2):            # near-copies are distinct solutions
                pop[i + 1] = [min(max(x + e, lo), hi) for x, (lo, hi) in zip(pop[i], ds)]
        counters = [Counter(f) for f in fs]
        inp = ("archive", name, ds, pop)
        B.case(inp)
        arch = RA()
        rnd = B.rng.choice([None, 1])
        trim = None if rnd is None else (lambda v: [min(max(round(x, 1), lo), hi) for x, (lo, hi) in zip(v, ds)])
        shift = 1000.0
        known = {}
        remembered = B.rng.random() < 0.5
        if remembered:
            for p in pop[::2]:
                known[tuple(p)] = [f(p) + shift for f in fs]
                arch[p] = list(known[tuple(p)])
        try:
            alg = build(B, name, pop, ds, counters, arch, B.rng.choice([0.0, 0.3, 1.0]), trim)
        except (TypeError, KeyError):
            continue
        try:
            for k in steps(alg, B.rng.choice([1, 2, 4])):
                n = [len(c.calls) for c in counters]
                B.expect(alg.cost == n[0], inp, "after step %d the cost is %r, objectives were computed for %d solutions" % (k + 1, alg.cost, n[0]))
        except Exception as ex:
            B.fail(inp, "raised %r" % ex)
            continue
        done = counters[0].calls
        B.expect(not any(tuple(c) in known for c in done), inp, "a remembered solution was computed again")
        for key in list(arch):
            val = list(arch[key])
            want = known.get(tuple(key)) or [f(list(key)) for f in fs]
            B.expect(val == want, inp, "archive entry of %r is %r, objectives are %r" % (key, val, want))
        # every solution the algorithm holds carries the objectives of its own vector (or the remembered ones)
        for ind in held(alg):
            v, o = ind
            want = known.get(tuple(v)) or [f(list(v)) for f in fs]
            B.expect(list(o) == want, inp, "solution %r carries objectives %r, its own are %r" % (v, o, want))


def held(alg):
    for attr in ("individuals", "archive", "leader_archive"):
        o = getattr(alg, attr, None)
        if o is None:
            continue
        try:
            items = list(o)
        except TypeError:
            continue
        for i in items:
            if isinstance(i, dict):
                v, ob = i.get("value"), i.get("objectives")
            else:
                v, ob = getattr(i, "v", getattr(i, "value", None)), getattr(i, "objectives", None)
            if isinstance(ob, dict):
                ob = [ob[k] for k in sorted(ob)] if all(isinstance(k, int) for k in ob) else (list(ob.values()) if ob else None)
            if v is not None and ob is not None and len(ob):
                yield list(v), list(ob)


def c_shared(B):
    """two algorithms sharing one archive: a solution computed by the first costs the second nothing"""
    RA = B.get("algorithms.HGS.tools:ResultArchive")
    for name, ds, fs, pop in setup(B, 120, 2500, ARCH):
        arch = RA()
        inp = ("shared", name, ds, pop)
        B.case(inp)
        c1 = [Counter(f) for f in fs]
        c2 = [Counter(f) for f in fs]
        try:
            a1 = build(B, name, pop, ds, c1, arch, 0.0)
            a1.next_step()
            stored = {tuple(k) for k in arch}
            a2 = build(B, name, pop, ds, c2, arch, 0.0)
            a2.next_step()
        except (TypeError, KeyError):
            continue
        again = [c for c in c2[0].calls if tuple(c) in stored]
        B.expect(not again, inp, "a remembered solution was computed again")
        B.expect(a2.cost == len(c2[0].calls), inp, "cost %r, computed %d" % (a2.cost, len(c2[0].calls)))


def c_ibea(B):
    """IBEA: each solution object is charged once, when it joins, unless it is remembered"""
    RA = B.get("algorithms.HGS.tools:ResultArchive")
    for name, ds, fs, pop in setup(B, 80, 2000, ["IBEA"]):
        inp = (name, ds, pop)
        B.case(inp)
        arch = RA() if B.rng.random() < 0.6 else None
        if arch is not None:
            for p in pop[::2]:
                arch[p] = [f(p) for f in fs]
        rate = B.rng.choice([0.0, 0.3, 1.0])
        alg = build(B, name, pop, ds, fs, arch, rate)
        if not hasattr(alg, "individuals"):
            return
        seen, keep, want = set(), [], 0
        for k in range(4):
            new = [i for i in alg.individuals if id(i) not in seen]
            seen |= {id(i) for i in new}
            keep += new
            want += sum(1 for i in new if arch is None or i.v not in arch)
            B.expect(alg.cost == want, inp, "after step %d the cost is %r, %d solutions were not remembered" % (k, alg.cost, want))
            alg.next_step()


def archives(B):
    out = [r for r in (B.opt("algorithms.HGS.tools:ResultArchive"), B.opt("algorithms.HGS.classic.ClassicHGS:ResultArchive")) if r]
    return out or [B.get("algorithms.HGS.tools:ResultArchive")]


def c_result_archive(B):
    RAS = archives(B)
    for it in B.loop(400):
        RA = RAS[it % len(RAS)]
        a, ref = RA(), {}
        ks = points(B.rng, 8, B.rng.choice([1, 2, 3])) + [[1.0, 11.0], [11.0, 1.0], [1, 2, 3], [12, 3], [-0.0, 0.5], [0.1 + 0.2], [0.3]]
        b = B.rng.choice(ks)
        for e in (1e-3, 1e-5, 1e-7, 1e-9, 1e-12):          # distinct solutions arbitrarily close to each other
            ks.append([x + e * B.rng.choice([0, 1, -1]) for x in b[:-1]] + [b[-1] + e])
        log = []
        for _ in range(B.rng.randint(1, 25)):
            k = B.rng.choice(ks)
            op = B.rng.randrange(3)
            if op < 2:
                v = [B.rng.random()]
                key = list(k) if B.rng.random() < 0.5 else tuple(k)
                a[key] = v
                ref[tuple(k)] = v
                log.append(("set", k, v))
            else:
                log.append(("del?", k))
                if tuple(k) in ref and B.rng.random() < 0.5:
                    del a[k]
                    del ref[tuple(k)]
            for q in ks:
                B.expect((q in a) == (tuple(q) in ref), log, "membership of %r" % (q,))
                if tuple(q) in ref and q in a:
                    B.expect(a[q] is ref[tuple(q)] or a[q] == ref[tuple(q)], log, "entry of %r is %r" % (q, a[q]))
            B.expect(len(a) == len(ref), log, "length %d instead of %d" % (len(a), len(ref)))
        B.case(log)


CHECKS = [("cost = evaluations", c_cost), ("fitness archive", c_archive), ("shared archive", c_shared), ("IBEA", c_ibea), ("ResultArchive", c_result_archive)]
