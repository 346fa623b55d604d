import math, random, copy
from gens import *
import algs


def chk(B, inp, v, ds, what):
    ok = B.expect(len(v) == len(ds), inp, "%s has %d values for %d variables" % (what, len(v), len(ds)))
    return ok and B.expect(within(v, ds), inp, lambda: "%s %r leaves the domain %r" % (what, v, ds))


def setup(B):
    d = B.rng.choice([1, 2, 3, 5, 8])
    ds = dims(B.rng, d)
    return ds, inbox(B.rng, ds), inbox(B.rng, ds), B.rng.choice([0.0, 0.0, 0.3, 1.0, 1.0]), B.rng.choice([0.0, 1.0, 5.0, 20.0, 50.0])


def parents(B, ds, x, y):
    k = B.rng.randrange(4)
    if k == 0:
        y = list(x)
    elif k == 1:
        y = [min(hi, max(lo, a + B.rng.choice([0.0, 1e-17, 1e-9, -1e-9, 1e-3]))) for a, (lo, hi) in zip(x, ds)]
    return x, y


def c_mutate(B):
    f = B.get("algorithms.base.drivertools:mutate")
    for i in B.loop(4000, 200000):
        ds, x, _, rate, eta = setup(B)
        inp = (ds, x, rate, eta, i)
        B.case(inp)
        with adversarial(B.rng.random()):
            keep = list(x)
            ok, r = B.run(inp, f, x, ds, rate, eta)
        if ok:
            chk(B, inp, r, ds, "mutant")
            B.expect(x == keep and r is not x, inp, "the parent was modified")
            if rate == 0.0:
                B.expect(list(r) == keep, inp, lambda: "rate 0 changed the parent into %r" % (r,))


def c_mutate_moves(B):
    """a rate of one mutates (every variable is re-drawn): over many draws each variable of an inner point changes, in both directions"""
    f = B.get("algorithms.base.drivertools:mutate")
    for i in B.loop(10, 100):
        ds = [(0, 1)] * 3
        x = [0.5, 0.4, 0.6]
        rs = [f(x, ds, 1.0, 5.0) for _ in range(60)]
        B.case(i)
        for k in range(3):
            B.expect(any(r[k] < x[k] for r in rs) and any(r[k] > x[k] for r in rs), (x, k), "rate 1 never moves a variable in one direction")


def c_crossover(B):
    f = B.get("algorithms.base.drivertools:crossover")
    for i in B.loop(4000, 200000):
        ds, x, y, rate, eta = setup(B)
        x, y = parents(B, ds, x, y)
        inp = (ds, x, y, rate, eta, i)
        B.case(inp)
        kx, ky = list(x), list(y)
        with adversarial(B.rng.random()):
            ok, r = B.run(inp, f, x, y, ds, rate, eta)
        if ok:
            chk(B, inp, r, ds, "child")
            B.expect(x == kx and y == ky and r is not x and r is not y, inp, "a parent was modified or returned")
            if rate == 0.0:
                B.expect(list(r) in (kx, ky), inp, lambda: "rate 0 gave %r" % (r,))
            for a, p, q in zip(r, kx, ky):
                if p == q:
                    B.expect(a == p, inp, "a variable on which the parents agree changed")


def c_simple(B):
    om = B.opt("algorithms.base.drivertools:old_mutate")
    oc = B.opt("algorithms.base.drivertools:old_crossover")
    tr = B.opt("algorithms.base.drivertools:crossover_triangular")
    be = B.opt("algorithms.base.drivertools:crossover_beta")
    gp = B.opt("evotools.ea_utils:gen_population")
    pd = [g for g in (B.opt("algorithms.HGS.tools:population_from_delegate"), B.opt("algorithms.HGS.classic.ClassicHGS:population_from_delegate")) if g]
    for i in B.loop(2500, 60000):
        ds, x, y, rate, eta = setup(B)
        inp = (ds, x, y, rate, eta, i)
        B.case(inp)
        kx, ky = list(x), list(y)
        with adversarial(B.rng.random(), 0.2):
            if om:
                ok, r = B.run(inp, om, x, ds, rate, [B.rng.choice([0.01, 1.0, 100.0])] * len(ds))
                if ok:
                    chk(B, inp, r, ds, "old_mutate result")
                    if rate == 0.0:
                        B.expect(list(r) == kx, inp, "old_mutate with probability 0 changed the parent")
            for nm, g in (("old_crossover", oc), ("crossover_triangular", tr)):
                if g:
                    ok, r = B.run((nm, inp), g, x, y)
                    if ok:
                        B.expect(len(r) == len(ds), (nm, inp), "wrong length")
                        for a, p, q in zip(r, kx, ky):
                            e = 1e-12 * max(1, abs(p), abs(q))
                            B.expect(min(p, q) - e <= a <= max(p, q) + e, (nm, inp), "child value %r outside its parents' interval" % a)
            if gp:
                n = B.rng.choice([0, 1, 3, 7])
                ok, r = B.run((n, ds), gp, n, ds)
                if ok:
                    B.expect(len(r) == n, (n, ds), "wrong population size")
                    for v in r:
                        chk(B, (n, ds), v, ds, "sampled solution")
                    B.expect(len({id(v) for v in r}) == len(r), (n, ds), "solutions share storage")
            for g in pd:
                n = B.rng.choice([1, 2, 5])
                ok, r = B.run((n, inp), g, x, n, ds, rate, eta)
                if ok:
                    B.expect(len(r) == n, (n, inp), "wrong sprout population size")
                    for v in r:
                        chk(B, (n, inp), v, ds, "sprout seed")
                    B.expect(list(r[0]) == kx, (n, inp), "first solution is not the delegate")
                    B.expect(all(v is not x for v in r), inp, "the delegate itself was put into the population")
                    if rate == 0.0:
                        B.expect(all(list(v) == kx for v in r), (n, inp), "rate 0 changed the delegate")
        if be and i % 3 == 0:
            ok, r = B.run(inp, be, x, y, ds, [0.2 * (b - a) for a, b in ds])
            if ok:
                for a, p, q in zip(r, kx, ky):
                    e = 1e-12 * max(1, abs(p), abs(q))
                    B.expect(min(p, q) - e <= a <= max(p, q) + e, inp, "beta crossover value %r outside its parents' interval" % a)
        B.expect(x == kx and y == ky, inp, "a parent was modified")


def c_nsga3(B):
    M = "algorithms.NSGAIII.NSGAIII:"
    Ind, xo, mu = B.get(M + "Individual"), B.get(M + "simulated_binary_crossover"), B.get(M + "polynomial_mutation")
    for i in B.loop(4000, 200000):
        ds, x, y, rate, eta = setup(B)
        x, y = parents(B, ds, x, y)
        inp = (ds, x, y, rate, eta, i)
        B.case(inp)
        a, b = Ind(list(x)), Ind(list(y))
        a.objectives, b.objectives = [1.0, 2.0], [2.0, 1.0]
        with adversarial(B.rng.random()):
            ok, r = B.run(inp, lambda: xo(a, b, ds, crossover_rate=rate, eta=eta))
            if ok:
                c, d = r
                chk(B, inp, c.v, ds, "child")
                chk(B, inp, d.v, ds, "child")
                B.expect(a.v == x and b.v == y and a.objectives == [1.0, 2.0] and b.objectives == [2.0, 1.0], inp, "a parent was modified")
                B.expect(c is not a and d is not b and c.v is not a.v and d.v is not b.v and c.v is not b.v, inp, "a child shares its parent's vector")
                for ch in (c, d):
                    if ch.objectives is not None:
                        B.expect((ch.v == x and ch.objectives == [1.0, 2.0]) or (ch.v == y and ch.objectives == [2.0, 1.0]), inp, "a child carries objective values of another vector")
                if rate == 0.0:
                    B.expect(c.v == x and d.v == y, inp, "crossover rate 0 changed a parent")
                before = list(c.v)
                ok, _ = B.run(inp, lambda: mu(c, ds, mutation_rate=rate, eta=eta))
                if ok:
                    chk(B, inp, c.v, ds, "mutant")
                    B.expect(a.v == x and b.v == y, inp, "mutating a child modified a parent")
                    if rate == 0.0:
                        B.expect(c.v == before, inp, "mutation rate 0 changed the child")
                    if c.v != before:
                        B.expect(c.objectives is None, inp, "changed solution keeps its old objective values")


def c_omopso(B):
    M = "algorithms.OMOPSO.OMOPSO:"
    Ind = B.get(M + "Individual")
    U, N = B.opt(M + "UniformMutation"), B.opt(M + "NonUniformMutation")
    for i in B.loop(2500, 60000):
        ds, x, y, rate, eta = setup(B)
        pert = B.rng.choice([0.5, 10.0])
        prog = B.rng.choice([0.0, 0.3, 1.0])
        inp = (ds, x, rate, pert, prog, i)
        B.case(inp)
        with adversarial(B.rng.random()):
            for m in ([U(rate, pert, ds)] if U else []) + ([N(prog, rate, pert, ds)] if N else []):
                p = Ind(list(x))
                ok, _ = B.run(inp, m, p)
                if ok:
                    chk(B, inp, p.value, ds, "mutated particle")
                    if rate == 0.0:
                        B.expect(p.value == x, inp, "probability 0 changed the particle")


def c_omopso_move(B):
    for i in B.loop(400, 10000):
        d = B.rng.choice([1, 2, 4])
        ds = dims(B.rng, d)
        pop = [inbox(B.rng, ds) for _ in range(B.rng.choice([2, 3, 5]))]
        a = algs.simple(B, "OMOPSO", [list(p) for p in pop], ds, objectives(B.rng.randrange(5), d))
        if not (hasattr(a, "move") and hasattr(a, "compute_speed")):
            return
        for p in a.individuals:
            p.speed = [B.rng.choice([0.0, 1.0, -1.0, 1e3, -1e-9, hi - lo]) for lo, hi in ds]
        sp = [list(p.speed) for p in a.individuals]
        inp = (ds, pop, sp)
        B.case(inp)
        ok, _ = B.run(inp, a.move)
        if ok:
            for p, v, s in zip(a.individuals, pop, sp):
                chk(B, inp, p.value, ds, "moved particle")
                B.expect(p.value == [min(max(x + u, lo), hi) for x, u, (lo, hi) in zip(v, s, ds)], inp, lambda: "move gave %r" % (p.value,))
        with adversarial(B.rng.random()):
            ok, _ = B.run(inp, lambda: (a.compute_speed(), a.move()))
        if ok:
            for p in a.individuals:
                chk(B, inp, p.value, ds, "moved particle")


def c_jgbl(B):
    for i in B.loop(600, 20000):
        d = B.rng.choice([1, 2, 4, 6])
        ds = dims(B.rng, d) if B.rng.random() < 0.7 else [(-4, 5.12), (0.1, 0.3), (-1.1, 1.7), (-0.1, 100)][:d] * (1 + d // 4)
        ds = ds[:d]
        a = algs.simple(B, "JGBL", [inbox(B.rng, ds) for _ in range(4)], ds, objectives(0, d), jumping_percentage=B.rng.choice([0.0, 0.3, 0.5, 1.0]))
        x, y = inbox(B.rng, ds), inbox(B.rng, ds)
        kx, ky = list(x), list(y)
        inp = (ds, x, y, a.jumping_percentage, i)
        B.case(inp)
        for op in ("cut_and_paste", "copy_and_paste"):
            f = getattr(a, op, None)
            if f:
                ok, r = B.run((op, inp), f, x, y)
                if ok:
                    for v in r:
                        chk(B, (op, inp), v, ds, "transposed solution")
                    B.expect(x == kx and y == ky, (op, inp), "a parent was modified")


def c_steps(B):
    """whole algorithms: everything they hold stays in the box, whatever the draws"""
    for i in B.loop(6, 60):
        for name in algs.SIMPLE:
            if not B.more():
                return
            d = B.rng.choice([1, 2, 3])
            ds = dims(B.rng, d)
            n = B.rng.choice([4, 6, 8]) if name != "JGBL" else 8
            k = B.rng.randrange(5)
            pop = [inbox(B.rng, ds) for _ in range(n)]
            seed = B.rng.random()
            inp = (name, ds, pop, k, seed)
            B.case(inp)
            rate = B.rng.choice([0.0, 0.5, 1.0])

            def go():
                with adversarial(seed, 0.1):
                    a = algs.simple(B, name, [list(p) for p in pop], ds, objectives(k, d), rate=rate)
                    for _ in range(4):
                        a.step()
                        for v in algs.vectors(a):
                            if not chk(B, inp, v, ds, "solution"):
                                return
                        for v in a.finalized_population():
                            if not chk(B, inp, v, ds, "reported solution"):
                                return
            B.run(inp, go)


CHECKS = [("mutate", c_mutate), ("mutate_moves", c_mutate_moves), ("crossover", c_crossover), ("simple_operators", c_simple), ("NSGAIII.operators", c_nsga3),
          ("OMOPSO.mutation", c_omopso), ("OMOPSO.move", c_omopso_move), ("JGBL.operators", c_jgbl), ("algorithm_steps", c_steps)]
