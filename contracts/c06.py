"""C06: hypervolume = measure of the union of boxes"""
import itertools, os, sys
from .lib import *

HV = "algorithms.base.hv:"


def big(P, x):
    P.assume(z3.And(x > -10 ** 300, x < 10 ** 300))


def union_measure(P, s, pts, ref):
    """measure of the union of the boxes [p, ref], p no worse than ref, by inclusion and exclusion; comparisons that the
    state already decides are used to keep the formula small"""
    d = len(ref)
    memo = {}

    def known(a, b):
        k = (a.get_id(), b.get_id())
        if k not in memo:
            memo[k] = True if P.eng.entails_quick(s, a <= b) else False if P.eng.entails_quick(s, a > b) else None
        return memo[k]

    def mx(a, b):
        t = known(a, b)
        return b if t is True else a if t is False else z3.If(a <= b, b, a)

    def rel(p):
        ks = [known(x, r) for x, r in zip(p, ref)]
        return False if any(k is False for k in ks) else True if all(k is True for k in ks) else z3.And(*[x <= r for x, r in zip(p, ref)])
    rs = [rel(p) for p in pts]
    tot = z3.RealVal(0)
    for m in range(1, len(pts) + 1):
        for S in itertools.combinations(range(len(pts)), m):
            c = And(*[rs[i] for i in S])
            if c is False:
                continue
            v = None
            for k in range(d):
                t = pts[S[0]][k]
                for i in S[1:]:
                    t = mx(t, pts[i][k])
                v = (ref[k] - t) if v is None else v * (ref[k] - t)
            if m % 2 == 0:
                v = -v
            tot = tot + (v if c is True else z3.If(c, v, z3.RealVal(0)))
    return tot


def small(n, d, shifted=True, budget=120, inside=False, orders=None):
    @proof("C06", "%d points, %d objectives: the volume of the union%s" % (n, d, ("" if shifted else " (reference point 0)") + (", given in ascending order of the last objective, none beyond the reference" if inside else "") + (", order %s in the one before" % "".join(map(str, orders)) if orders else "")), HV + "HyperVolume.compute", bounded="%d points in %d objectives" % (n, d), budget=budget)
    def p(P):
        pts = [[P.real("p%d_%d" % (i, k)) for k in range(d)] for i in range(n)]
        ref = [P.real("r%d" % k) for k in range(d)] if shifted else [z3.RealVal(0)] * d
        for x in sum(pts, []) + (ref if shifted else []):
            big(P, x)
        if inside:
            for q in pts:
                P.assume(z3.And(*[x <= r for x, r in zip(q, ref)]))
            for a, b in zip(pts, pts[1:]):
                P.assume(a[d - 1] <= b[d - 1])
            if orders:
                for a, b in zip(orders, orders[1:]):
                    P.assume(pts[a][d - 2] <= pts[b][d - 2])
        P.eng.merge_ok = False
        P.eng.path_limit = 100000
        refl = P.lst(Seq.lit(ref)) if shifted else P.lst(Seq.lit([0] * d))
        hv = P.new(HV + "HyperVolume", [refl])
        front = P.lst(Seq.lit([P.lst(Seq.lit(p)) for p in pts]))
        for s, v in P.call(P.method(hv, "compute"), [hv, front]):
            P.ensure(s, "inclusion and exclusion", R(v) == union_measure(P, s, pts, ref))
    p.__name__ = "small_%d_%d" % (n, d)
    return p


for _n, _d in ((0, 2), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (1, 4), (2, 4)):
    small(_n, _d)
for _n, _d in ((3, 3), (4, 2), (2, 5)):
    small(_n, _d, shifted=False, inside=True)
for _o in itertools.permutations(range(3)):
    if _o in ((0, 1, 2), (1, 0, 2)) or "thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough":
        small(3, 4, shifted=False, inside=True, orders=_o, budget=250 if _o[2] == 2 else 1200)


def nodes(P, n, idx, X):
    """the linked list of one objective as left by the sorting: nodes 1..n in ascending order, 0 closes the ring; X(k, t): coordinates"""
    cls = P.get(HV + "MultiList.Node")
    ring = lambda t: z3.If(t == n, z3.IntVal(0), t + 1)
    back = lambda t: z3.If(t == 0, n, t - 1)
    many = lambda f: Seq(idx + 1, lambda i: SymObj(cls, f) if conc(i) == idx else (_ for _ in ()).throw(Unsupported("another list of the node")))
    P.st.heap[("F", cls.name, "next")] = FMap(lambda t: many(ring(t)))
    P.st.heap[("F", cls.name, "prev")] = FMap(lambda t: many(back(t)))
    P.st.heap[("F", cls.name, "cargo")] = FMap(lambda t: Seq(idx + 1, lambda i: X(toz(i), t)))
    return cls


@proof("C06", "two objectives: the sum of the slices between consecutive points, any number of points", HV + "HyperVolume.hvRecursive")
def two(P):
    """with the points in ascending order of the second objective (reference at the origin), the measure is the sum, over
    the slices between consecutive second objectives, of the slice's height times the width reached so far"""
    n = P.int("n", 0)
    X = P.fn1("X", z3.IntSort(), z3.IntSort(), z3.RealSort())
    x, y = (lambda t: X(z3.IntVal(0), t)), (lambda t: X(z3.IntVal(1), t))
    cls = nodes(P, n, 1, X)
    # WIDE(k): smallest first objective among the first k; AREA(k): measure of the part below the k-th second objective
    LOW, AREA = P.fn1("LOW", z3.IntSort(), z3.RealSort()), P.fn1("AREA", z3.IntSort(), z3.RealSort())
    k = z3.Int("k!")
    P.fact(LOW(1) == x(1))
    P.fact(z3.ForAll([k], z3.Implies(k >= 1, LOW(k + 1) == z3.If(x(k + 1) < LOW(k), x(k + 1), LOW(k))), patterns=[LOW(k + 1)]))
    P.fact(AREA(1) == 0)
    P.fact(z3.ForAll([k], z3.Implies(k >= 1, AREA(k + 1) == AREA(k) + (0 - LOW(k)) * (y(k + 1) - y(k))), patterns=[AREA(k + 1)]))

    def cands(eng, st):
        out = []
        for nm, v in list(st.frames[st.cur].items()):
            if isinstance(v, SymObj) and v.cls is cls:
                out += [lambda s, k, nm=nm: s.frames[s.cur][nm].term == z3.If(k + 1 == n, 0, k + 2), lambda s, k, nm=nm: s.frames[s.cur][nm].term == k + 1]
            elif is_num(v) and not (isinstance(v, z3.ArithRef) and v.is_int()):
                out += [lambda s, k, nm=nm: R(s.frames[s.cur][nm]) == LOW(k + 1), lambda s, k, nm=nm: R(s.frames[s.cur][nm]) == AREA(k + 1),
                        lambda s, k, nm=nm: R(s.frames[s.cur][nm]) == y(k + 1)]
        return out + [lambda s, k: k + 1 <= n]
    P.eng.loop_inv = cands
    P.eng.merge_ok = True
    ml = SpecObj({"sentinel": SymObj(cls, z3.IntVal(0))}, "linked lists")
    hv = P.new(HV + "HyperVolume", [P.lst(Seq.lit([0, 0]))], list=ml)
    for s, v in P.call(P.method(hv, "hvRecursive"), [hv, 1, n, P.lst(Seq.lit([P.real("b0"), P.real("b1")]))]):
        P.ensure(s, "no points, no volume", Implies(n == 0, R(v) == 0))
        P.ensure(s, "the slices and the last one up to the reference", Implies(n >= 1, R(v) == AREA(n) + (0 - LOW(n)) * (0 - y(n))))


@proof("C06", "one objective: the distance of the smallest value to the reference, any number of points", HV + "HyperVolume.hvRecursive")
def one(P):
    n = P.int("n", 0)
    X = P.fn1("X", z3.IntSort(), z3.IntSort(), z3.RealSort())
    cls = nodes(P, n, 0, X)
    x = lambda t: X(z3.IntVal(0), t)
    i, j = z3.Ints("i! j!")
    P.fact(z3.ForAll([i, j], z3.Implies(z3.And(1 <= i, i <= j, j <= n), x(i) <= x(j))))
    hv = P.new(HV + "HyperVolume", [P.lst(Seq.lit([0]))], list=SpecObj({"sentinel": SymObj(cls, z3.IntVal(0))}, "linked lists"))
    for s, v in P.call(P.method(hv, "hvRecursive"), [hv, 0, n, P.lst(Seq.lit([P.real("b0")]))]):
        P.ensure(s, "no points, no volume", Implies(n == 0, R(v) == 0))
        P.ensure(s, "at least that of every point", z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= n), R(v) >= 0 - x(i))))
        P.ensure(s, "that of one of them", Implies(n >= 1, exists(n + 1, lambda t: R(v) == 0 - x(t), lo=1)))


@proof("C06", "exactly the points no worse than the reference count, moved so that it is the origin; any number of points and objectives", HV + "HyperVolume.compute")
def relevant(P):
    n, d = P.int("n", 0), P.int("d", 1)
    ref = P.vec("REF", d)
    pts = P.vecs("POINT", n, d)
    g = Ghost(P, front=None, vol=None)
    VOL = P.real("VOLUME")
    hv = P.new(HV + "HyperVolume", [P.lst(ref)])

    def pre(e, s, a, kw, node):
        g.set(s, "front", e.seq_of(a[-1], s))
        return [(s, None)]

    def rec(e, s, a, kw, node):
        g.set(s, "vol", tuple(a[-3:-1]) + (e.seq_of(a[-1], s),))
        return [(s, VOL)]
    P.eng.contracts[HV + "HyperVolume.preProcess"] = pre
    P.eng.contracts[HV + "HyperVolume.hvRecursive"] = rec
    for s, v in P.call(P.method(hv, "compute"), [hv, P.lst(Seq(n, lambda k: pts.get(k)))]):
        fr, vol = g.get(s, "front"), g.get(s, "vol")
        if fr is None or vol is None:
            P.ensure(s, "a volume is computed", False)
            continue
        P.ensure(s, "it is the volume of the list made", R(v) == VOL)
        P.ensure(s, "over all objectives", cmp("==", vol[0], sub(d, 1)))
        P.ensure(s, "of all relevant points", cmp("==", vol[1], fr.n))
        P.ensure(s, "no bound is smaller than a coordinate", And(cmp("==", vol[2].n, d), forall(d, lambda i: R(vol[2].get(i)) <= -10 ** 300)))
        no_worse = lambda k: forall(d, lambda i: pts.get(k).get(i) <= ref.get(i))
        chosen(P, s, fr, n, no_worse, lambda v, k: forall(d, lambda i: R(P.seq(v, s).get(i)) == pts.get(k).get(i) - ref.get(i)), "points no worse than the reference, moved by it")


@proof("C06", "the metric is the volume up to 50 in every objective of the reference front, any sizes", "metrics.metrics:hypervolume")
def metric(P):
    n, m, d = P.int("n", 0), P.int("m", 1), P.int("d", 1)
    pts, pareto = P.vecs("POINT", n, d), P.vecs("PARETO", m, d)
    VOL = P.real("VOLUME")
    front = P.lst(Seq(n, lambda k: pts.get(k)))

    def comp(e, s, a, kw, node):
        ref = P.seq(fld(P, a[0], "referencePoint", s), s)
        P.ensure(s, "as many objectives as the front", cmp("==", ref.n, d))
        P.ensure(s, "50 in every objective", forall(d, lambda i: R(ref.get(i)) == 50))
        P.ensure(s, "of the population without dominated members", isinstance(a[1], ListRef) and a[1].addr == front.addr)
        return [(s, VOL)]
    P.eng.contracts[HV + "HyperVolume.compute"] = comp
    for s, v in P.call("metrics.metrics:hypervolume", [P.lst(P.vecs("ALL", P.int("a", 0), d)), front, P.lst(pareto)]):
        P.ensure(s, "that volume", R(v) == VOL)


def links(P, m):
    """m doubly linked lists over any nodes as ghost maps: node.next[i] / node.prev[i] read and write them"""
    cls = P.get(HV + "MultiList.Node")
    I = z3.IntSort()
    N, V, X = P.fn1("NEXT", I, I, I), P.fn1("PREV", I, I, I), P.fn1("X", I, I, z3.RealSort())
    if not isinstance(cls, ClassVal):
        raise Unsupported("no list nodes")

    def slot(key, t):
        def get(e, s, a):
            return [(s, SymObj(cls, s.heap[key].get(toz(a[0]))(t)))]

        def put(e, s, a):
            if not (isinstance(a[1], SymObj) and a[1].cls is cls):
                raise Unsupported("a link to something else")
            old, i, x = s.heap[key].get, toz(a[0]), a[1].term
            s.heap[key] = FMap(lambda j: lambda u: z3.If(z3.And(j == i, u == t), x, old(j)(u)))
            return [(s, None)]
        return SpecObj({"__getitem__": UFun(get), "__setitem__": UFun(put)}, "links")
    P.st.heap[("GHOST", "next")] = FMap(lambda i: lambda t: N(i, t))
    P.st.heap[("GHOST", "prev")] = FMap(lambda i: lambda t: V(i, t))
    P.st.heap[("F", cls.name, "next")] = FMap(lambda t: slot(("GHOST", "next"), t))
    P.st.heap[("F", cls.name, "prev")] = FMap(lambda t: slot(("GHOST", "prev"), t))
    P.st.heap[("F", cls.name, "cargo")] = FMap(lambda t: Seq(m, lambda i: X(toz(i), t)))
    return cls, N, V, X


def relink(m):
    @proof("C06", "a removed node is skipped by its %d lists, reinserting it restores every link; any lists" % m, HV + "MultiList.remove, " + HV + "MultiList.reinsert", bounded="%d lists" % m)
    def _(P, m=m):
        cls, N, V, X = links(P, m)
        p = P.int("p")
        b = [P.real("b%d" % i) for i in range(m)]
        i, t = z3.Ints("i!l t!l")
        lists = [z3.IntVal(k) for k in range(m)]
        for k in lists:
            P.assume(z3.And(N(k, V(k, p)) == p, V(k, N(k, p)) == p, N(k, p) != p, V(k, p) != p))
        ml = P.obj(P.get(HV + "MultiList"), {"numberLists": m})
        node = SymObj(cls, p)
        bounds = P.lst(Seq.lit(list(b)))
        here = lambda u: z3.And(0 <= u, u < m)
        for s, v in P.call(P.method(ml, "remove"), [ml, node, m, bounds]):
            nx, pv = s.heap[("GHOST", "next")].get, s.heap[("GHOST", "prev")].get
            P.ensure(s, "the node itself is handed back", isinstance(v, SymObj) and v.term == p)
            P.ensure(s, "every list skips it forwards", z3.ForAll([i, t], nx(i)(t) == z3.If(z3.And(here(i), t == V(i, p)), N(i, p), N(i, t))))
            P.ensure(s, "every list skips it backwards", z3.ForAll([i, t], pv(i)(t) == z3.If(z3.And(here(i), t == N(i, p)), V(i, p), V(i, t))))
            low = P.seq(bounds, s)
            for k in range(m):
                P.ensure(s, "the bounds cover the node", R(low.get(k)) == z3.If(X(k, p) < b[k], X(k, p), b[k]))
            for s2, _ in P.call(P.method(ml, "reinsert"), [ml, node, m, bounds], st=s):
                nx2, pv2 = s2.heap[("GHOST", "next")].get, s2.heap[("GHOST", "prev")].get
                P.ensure(s2, "every forward link is as before", z3.ForAll([i, t], nx2(i)(t) == N(i, t)))
                P.ensure(s2, "every backward link is as before", z3.ForAll([i, t], pv2(i)(t) == V(i, t)))
                low2 = P.seq(bounds, s2)
                for k in range(m):
                    P.ensure(s2, "the bounds still cover the node", R(low2.get(k)) == z3.If(X(k, p) < b[k], X(k, p), b[k]))


for _m in (1, 2, 3, 4):
    relink(_m)
