import itertools, random
from gens import *


def sets(B, quick=600, thorough=20000, nmax=12):
    for d in (1, 2):
        for n in (0, 1, 2, 3):
            vals = (0.0, 1.0, 2.0) if d == 1 else (0.0, 1.0)
            for ps in itertools.product(itertools.product(vals, repeat=d), repeat=n):
                yield [list(p) for p in ps]
    for _ in B.loop(quick, thorough):
        n = B.rng.randrange(0, nmax)
        d = B.rng.choice([1, 2, 2, 2, 3, 3, 4])
        if B.rng.random() < 0.3:
            ps = front2(B.rng, n)
            B.rng.shuffle(ps)
            if ps and B.rng.random() < 0.5:
                q = list(B.rng.choice(ps))
                q[B.rng.randrange(2)] += B.rng.choice([-0.1, 0.1])
                ps.insert(B.rng.randrange(len(ps) + 1), q)
            yield ps
        else:
            yield points(B.rng, n, d)


def filt(B, f, keep_mult):
    for ps in sets(B):
        if not B.more():
            break
        B.case(ps)
        arg = [list(p) for p in ps] if B.rng.random() < 0.5 else [tuple(p) for p in ps]
        ok, r = B.run(ps, lambda: list(f(arg)))
        if not ok:
            continue
        got, want = multiset(r), multiset(nondom(ps))
        B.expect(set(got) <= set(want), ps, lambda: "result %r contains a dominated or foreign point" % (r,))
        B.expect(set(want) <= set(got), ps, lambda: "result %r loses a non-dominated point" % (r,))
        for k in got:
            B.expect(got[k] <= multiset(ps).get(k, 0), ps, "a point is returned more often than it occurs")
        B.expect([list(x) for x in arg] == ps, ps, "the input was modified")


def c_filter(B):
    filt(B, B.get("metrics.metrics_utils:filter_not_dominated"), True)


def c_filter2(B):
    filt(B, B.get("metrics.metrics_utils:filter_not_dominated2"), False)


def c_filter_metrics(B):
    f = B.get("metrics.metrics:filter_not_dominated")
    filt(B, f, True)
    for ps in sets(B, 60, 2000):
        if not B.more():
            break
        ok, r = B.run(ps, lambda: list(f(tuple(p) for p in ps)))
        if ok:
            B.expect(set(map(tuple, r)) == set(map(tuple, nondom(ps))), ps, "filtering an iterator gives %r" % (r,))


def c_bogo(B):
    BOGO = B.get("algorithms.BOGO.BOGO:BOGO")
    B.get("algorithms.BOGO.BOGO:BOGO.refresh_archive")
    Ind = B.get("algorithms.BOGO.BOGO:Individual")

    def ident(k):
        return lambda v: v[k]
    for ps in sets(B):
        if not B.more():
            break
        if not ps:
            continue
        d = len(ps[0])
        ds = [(0, 1)] * d
        B.case(ps)
        ok, b = B.run(ps, lambda: BOGO([list(p) for p in ps], ds, [ident(k) for k in range(d)], None, None))
        if ok:
            arch = [tuple(a.fit) for a in b.archive]
            B.expect(set(arch) == set(map(tuple, nondom(ps))), ps, lambda: "archive %r is not the non-dominated set" % (arch,))
            B.expect(sorted(arch) == sorted(map(tuple, nondom(ps))), ps, lambda: "archive %r changed multiplicities" % (arch,))
            B.expect(all(tuple(a.v) == tuple(a.fit) for a in b.archive), ps, "an archived solution lost its objective values")


def mkind(Ind, p):
    i = Ind(list(p))
    i.objectives = list(p)
    return i


def edom(a, b, eta):
    """the archive's own relaxed dominance (objectives scaled by 1/(1+eta))"""
    return dom([x / (1 + eta) for x in a], b)


def c_archive(B):
    Archive = B.get("algorithms.OMOPSO.OMOPSO:Archive")
    Ind = B.get("algorithms.OMOPSO.OMOPSO:Individual")
    for ps in sets(B, 1500, 40000):
        if not B.more():
            break
        eta = B.rng.choice([0.0, 0.0, 0.0075, 0.5])
        if eta and any(x < 0 for p in ps for x in p):
            eta = 0.0
        a = Archive(eta)
        fed = []
        for p in ps:
            before = [tuple(x.objectives) for x in a]
            ok, r = B.run((eta, ps), a.add, mkind(Ind, p))
            if not ok:
                break
            fed.append(tuple(p))
            after = [tuple(x.objectives) for x in a]
            B.case((eta, fed))
            for x, y in itertools.permutations(after, 2):
                B.expect(not edom(x, y, eta), (eta, fed), lambda: "archive %r: %r dominates %r" % (after, x, y))
            B.expect(set(after) <= set(fed), (eta, fed), "foreign point in the archive")
            if eta == 0.0:
                B.expect(sorted(after) == sorted(set(map(tuple, nondom(fed)))), (eta, fed), lambda: "archive %r is not the non-dominated set" % (after,))
            B.expect(bool(r) == (tuple(p) in after and tuple(p) not in before) or (tuple(p) in before and not r), (eta, fed), "add returned %r" % (r,))
            if not r:
                B.expect(any(edom(x, p, eta) or x == tuple(p) for x in after), (eta, fed), "rejected point is not dominated by the archive")
            for x in before:
                if x not in after:
                    B.expect(edom(p, x, eta), (eta, fed), "evicted point %r is not dominated by the newcomer" % (x,))
            if B.failures:
                return


def c_leader(B):
    L = B.get("algorithms.OMOPSO.OMOPSO:LeaderArchive")
    Ind = B.get("algorithms.OMOPSO.OMOPSO:Individual")
    for ps in sets(B, 1200, 30000):
        if not B.more():
            break
        size = B.rng.choice([1, 2, 3, 4, 6])
        a = L(size)
        fed = []
        for p in ps:
            before = [tuple(x.objectives) for x in a]
            ok, r = B.run((size, ps), a.add, mkind(Ind, p))
            if not ok:
                return
            fed.append(tuple(p))
            after = [tuple(x.objectives) for x in a]
            B.case((size, fed))
            B.expect(1 <= len(after) <= size, (size, fed), "archive of size %d holds %d" % (size, len(after)))
            B.expect(len(set(after)) == len(after), (size, fed), "duplicate objective vectors in the archive")
            for x, y in itertools.permutations(after, 2):
                B.expect(not dom(x, y), (size, fed), lambda: "archive %r: %r dominates %r" % (after, x, y))
            gone = [x for x in before if x not in after]
            kept = [x for x in gone if not dom(p, x)]
            if not r:
                B.expect(not gone, (size, fed), "rejecting a point changed the archive")
                B.expect(any(dom(x, p) or x == tuple(p) for x in before), (size, fed), "rejected point is not covered by the archive")
            else:
                lost = len(kept) + (tuple(p) not in after)
                full = len([x for x in before if not dom(p, x)]) + 1 > size
                B.expect(lost == (1 if full else 0), (size, fed), lambda: "added %r: archive went from %r to %r" % (p, before, after))
            if B.failures:
                return


CHECKS = [("filter_not_dominated", c_filter), ("filter_not_dominated2", c_filter2), ("metrics.filter_not_dominated", c_filter_metrics),
          ("BOGO.archive", c_bogo), ("OMOPSO.Archive", c_archive), ("OMOPSO.LeaderArchive", c_leader)]
