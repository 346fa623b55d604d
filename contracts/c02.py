from .lib import *


def arch_cands(vecof):
    """candidate invariants of an incremental filter: `vecof` maps an element of a list/sequence to its vector term"""
    def cand(eng, v, m, sq):
        if not isinstance(v, Seq):
            return None
        c = next(eng.counter)
        i, j = z3.Int("ci%d" % c), z3.Int("cj%d" % c)
        m, n = toz(m), toz(v.n)
        if v.is_lit and v.n == 0:
            return [True, True, z3.ForAll([j], z3.Not(z3.And(0 <= j, j < m)))]
        R = lambda t: vecof(v.get(t))
        X = lambda t: vecof(sq.get(t))
        return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Exists([j], z3.And(0 <= j, j < m, R(i) == X(j))))),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), z3.Not(DOM(R(i), R(j))))),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Exists([i], z3.And(0 <= i, i < n, z3.Or(R(i) == X(j), DOM(R(i), X(j)))))))]
    return cand


def filter_post(P, s, R, m, X, n):
    i, j = z3.Ints("i j")
    m, n = toz(m), toz(n)
    P.ensure(s, "only points of the input", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Exists([j], z3.And(0 <= j, j < n, R(i) == X(j))))))
    P.ensure(s, "no returned point is dominated by an input point", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < n), z3.Not(DOM(X(j), R(i))))))
    P.ensure(s, "no non-dominated point is lost",
             z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(DOM(X(i), X(j)))))), z3.Exists([i], z3.And(0 <= i, i < m, R(i) == X(j))))))


@proof("C02", "incremental filter, any finite set", "metrics.metrics_utils:filter_not_dominated")
def filter1(P):
    use_dom(P)
    P.eng.list_elem = "vec"
    P.eng.inv_cands = [arch_cands(SEQV)]
    n = P.int("n", 0)
    xs = P.vecs("XS", n)
    for s, v in P.call("metrics.metrics_utils:filter_not_dominated", [xs]):
        r = P.seq(v, s)
        filter_post(P, s, lambda t: SEQV(r.get(t)), r.n, lambda t: SEQV(xs.get(t)), n)


@proof("C02", "quadratic filter, any finite set", "metrics.metrics_utils:filter_not_dominated2")
def filter2(P):
    use_dom(P)
    P.eng.list_elem = "vec"
    n = P.int("n", 0)
    xs = P.vecs("XS", n)
    for s, v in P.call("metrics.metrics_utils:filter_not_dominated2", [xs]):
        r = P.seq(v, s)
        filter_post(P, s, lambda t: SEQV(r.get(t)), r.n, lambda t: SEQV(xs.get(t)), n)


IND = ClassVal("individual", None, [], {}, None)
I = z3.IntSort()


def rng(x, n):
    return z3.And(0 <= x, x < n)


def plain_lists(st):
    """the local variables and fields that hold lists, as functions of the state"""
    out = []
    for n, v in st.frames[st.cur].items():
        if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)):
            out.append(lambda s, n=n: s.frames[st.cur][n])
    for a, h in st.heap.items():
        if isinstance(h, HeapObj):
            out += [lambda s, a=a, n=n: s.heap[a].fields[n] for n, v in h.fields.items() if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef))]
    return out


class Archived:
    """an archive of N entries (numbered 0..N-1, pairwise non-dominated) and a newcomer (number N)"""

    def __init__(self, P, dom, cls=IND):
        self.P, self.N = P, P.int("N", 0)
        self.dom = dom
        N, i, j = self.N, z3.Int("i!a"), z3.Int("j!a")
        self.arch = P.lst(Seq(N, lambda i: SymObj(cls, toz(i))))
        self.new = SymObj(cls, N)
        P.fact(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, N), rng(j, N)), z3.Not(dom(i, j)))))
        P.eng.loop_inv, P.eng.inv_for = self.cands, True
        P.inv_timeout(2000)
        # ghost: the place of an entry in a list that entries are removed from, and which ones were removed
        self.cls = cls
        self.addr = None
        P.st.heap[("F", cls.name, "PLACE")] = FMap(lambda t: t)
        P.st.heap[("F", cls.name, "GONE")] = FMap(lambda t: z3.BoolVal(False))
        P.eng.on_remove = self.removed

    def ghost(self, s, f, t):
        return s.heap[("F", self.cls.name, f)].get(t)

    def removed(self, st, addr, index, v):
        pl, gone, r, x = st.heap[("F", self.cls.name, "PLACE")], st.heap[("F", self.cls.name, "GONE")], toz(index), v.term
        st.heap[("F", self.cls.name, "PLACE")] = FMap(lambda t: z3.If(pl.get(t) > r, pl.get(t) - 1, pl.get(t)))
        st.heap[("F", self.cls.name, "GONE")] = FMap(lambda t: z3.Or(t == x, gone.get(t)))

    def elems(self, s, v):
        sq = self.P.seq(v, s)

        def el(i):
            if sq.is_lit and sq.n == 0:
                return z3.IntVal(-1)
            x = sq.get(i)
            if not isinstance(x, SymObj):
                raise Unsupported("list of something else")
            return x.term
        return toz(sq.n), el

    def cands(self, eng, st):
        N, dom = self.N, self.dom
        i, j = z3.Ints("i!c j!c")
        out = [lambda s, k: z3.ForAll([j], z3.Implies(rng(j, k), z3.Not(dom(j, N))))]
        bools = [n for n, v in st.frames[st.cur].items() if is_bool(v)]
        for n in bools:
            b = lambda s, n=n: toz(s.frames[st.cur][n])
            out.append(lambda s, k, b=b: z3.Implies(b(s), z3.Exists([j], z3.And(rng(j, k), dom(j, N)))))
            out.append(lambda s, k, b=b: z3.Implies(z3.Not(b(s)), z3.ForAll([j], z3.Implies(rng(j, k), z3.Not(dom(j, N))))))
        for v in plain_lists(st):
            E = lambda s, v=v: self.elems(s, v(s))
            out += [lambda s, k, E=E: z3.ForAll([i], z3.Implies(rng(i, E(s)[0]), z3.And(rng(E(s)[1](i), k), z3.Not(dom(N, E(s)[1](i)))))),
                    lambda s, k, E=E: z3.ForAll([i], z3.Implies(rng(i, E(s)[0]), z3.And(rng(E(s)[1](i), N), z3.Implies(E(s)[1](i) < k, z3.Not(dom(N, E(s)[1](i))))))),
                    lambda s, k, E=E: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, E(s)[0]), rng(j, E(s)[0]), i != j), E(s)[1](i) != E(s)[1](j))),
                    lambda s, k, E=E: z3.ForAll([j], z3.Implies(z3.And(rng(j, k), z3.Not(dom(N, j))), z3.Exists([i], z3.And(rng(i, E(s)[0]), E(s)[1](i) == j)))),
                    lambda s, k, E=E: z3.ForAll([j], z3.Implies(z3.And(rng(j, N), z3.Or(j >= k, z3.Not(dom(N, j)))), z3.Exists([i], z3.And(rng(i, E(s)[0]), E(s)[1](i) == j))))]
            out += [lambda s, k, E=E: z3.ForAll([j], z3.Implies(rng(j, N), z3.Or(self.ghost(s, "GONE", j), z3.And(rng(self.ghost(s, "PLACE", j), E(s)[0]), E(s)[1](self.ghost(s, "PLACE", j)) == j)))),
                    lambda s, k, E=E: z3.ForAll([i], z3.Implies(rng(i, E(s)[0]), z3.And(z3.Not(self.ghost(s, "GONE", E(s)[1](i))), self.ghost(s, "PLACE", E(s)[1](i)) == i)))]
        out.append(lambda s, k: z3.ForAll([j], z3.Implies(rng(j, N), self.ghost(s, "GONE", j) == z3.And(j < k, dom(N, j)))))
        return out

    def post(self, s, v, dup=None):
        """`v`: the archive afterwards; dup(j): the newcomer may be left out because entry j has the same objectives"""
        P, N, dom = self.P, self.N, self.dom
        n, el = self.elems(s, v)
        i, j = z3.Ints("i!p j!p")
        x = P.eng.fresh_int("x")
        mention(P, s, x)
        for t in (x, N):
            s.assume(P.eng.fresh_int("place") == self.ghost(s, "PLACE", t))
        P.have(s, "entries are former entries or the newcomer", z3.ForAll([i], z3.Implies(rng(i, n), rng(el(i), N + 1))))
        P.ensure(s, "no entry is kept twice", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), i != j), el(i) != el(j))))
        P.ensure(s, "no entry dominates another", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n)), z3.Not(dom(el(i), el(j))))))
        P.ensure(s, "what is missing is dominated by an entry", z3.Implies(rng(x, N + 1), z3.Or(
            z3.Exists([i], z3.And(rng(i, n), el(i) == x)), z3.Exists([i], z3.And(rng(i, n), dom(el(i), x))), *([z3.And(x == N, dup(s, n, el))] if dup else []))))


@proof("C02", "BOGO: the archive after a newcomer", "algorithms.BOGO.BOGO:BOGO.refresh_archive")
def bogo(P):
    use_dom(P)
    FITV = P.fn1("FIT", I, Vec)
    P.st.heap[("F", "individual", "fit")] = FMap(lambda t: Seq.ofvec(FITV(t)))
    a = Archived(P, lambda x, y: DOM(FITV(x), FITV(y)))
    o = P.obj("algorithms.BOGO.BOGO:BOGO", {"archive": a.arch})
    for s, v in P.call(P.method(o, "refresh_archive"), [o, a.new]):
        a.post(s, fld(P, o, "archive", s))


@proof("C02", "OMOPSO: the archive after a newcomer", "algorithms.OMOPSO.OMOPSO:Archive.add")
def omopso(P):
    dom_axioms(P.eng)
    cls = P.get("algorithms.OMOPSO.OMOPSO:Individual")
    OBJ, EQ = P.fn1("OBJECTIVES", I, Vec), P.fn1("EQUAL", I, I, z3.BoolSort())
    dom = lambda x, y: DOM(OBJ(x), OBJ(y))
    x, y, z = z3.Ints("x!o y!o z!o")
    P.fact(z3.ForAll([x, y, z], z3.Implies(EQ(x, y), z3.And(dom(x, z) == dom(y, z), dom(z, x) == dom(z, y))), patterns=[z3.MultiPattern(EQ(x, y), OBJ(z))]))
    a = Archived(P, dom, cls)

    def dominates(e, st, v, kw, node):
        """contract of Individual.dominates (proved under C01), without tolerance"""
        eta = v[2] if len(v) > 2 else kw.get("eta", 0)
        P.ensure(st, "compared without tolerance", toz(eta) == 0)
        return [(st, dom(v[0].term, v[1].term))]
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:Individual.dominates"] = dominates
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:Individual.equal_obj"] = lambda e, st, v, kw, node: [(st, EQ(v[0].term, v[1].term))]
    o = P.obj("algorithms.OMOPSO.OMOPSO:Archive", {"archive": a.arch, "eta": 0})
    i = z3.Int("i!d")
    for s, v in P.call(P.method(o, "add"), [o, a.new]):
        a.post(s, fld(P, o, "archive", s), lambda s, n, el: z3.Exists([i], z3.And(rng(i, n), EQ(el(i), a.N))))
        n, el = a.elems(s, fld(P, o, "archive", s))
        P.ensure(s, "the answer tells whether the newcomer was stored", toz(v) == z3.Exists([i], z3.And(rng(i, n), el(i) == a.N)))


@proof("C02", "OMOPSO: the archive with a relaxation after a newcomer", "algorithms.OMOPSO.OMOPSO:Archive.add")
def omopso_relaxed(P):
    """any tolerance: the relation need not be transitive, so the statement names the newcomer as the reason of an eviction"""
    cls = P.get("algorithms.OMOPSO.OMOPSO:Individual")
    RDOM, EQ = P.fn1("RELAXED_DOM", I, I, z3.RealSort(), z3.BoolSort()), P.fn1("EQUAL", I, I, z3.BoolSort())
    eta = P.real("eta")
    P.assume(eta >= 0)
    dom = lambda x, y: RDOM(x, y, eta)
    a = Archived(P, dom, cls)

    def dominates(e, st, v, kw, node):
        """contract of Individual.dominates (proved under C01 for any tolerance)"""
        t = v[2] if len(v) > 2 else kw.get("eta", 0)
        return [(st, RDOM(v[0].term, v[1].term, z3.ToReal(toz(t)) if toz(t).sort() == I else toz(t)))]
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:Individual.dominates"] = dominates
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:Individual.equal_obj"] = lambda e, st, v, kw, node: [(st, EQ(v[0].term, v[1].term))]
    o = P.obj("algorithms.OMOPSO.OMOPSO:Archive", {"archive": a.arch, "eta": eta})
    i, j = z3.Ints("i!x j!x")
    N = a.N
    for s, v in P.call(P.method(o, "add"), [o, a.new]):
        n, el = a.elems(s, fld(P, o, "archive", s))
        x = P.eng.fresh_int("x")
        mention(P, s, x)
        for t in (x, N):
            s.assume(P.eng.fresh_int("place") == a.ghost(s, "PLACE", t))
        there = lambda x: z3.Exists([i], z3.And(rng(i, n), el(i) == x))
        P.have(s, "entries are former entries or the newcomer", z3.ForAll([i], z3.Implies(rng(i, n), rng(el(i), N + 1))))
        P.ensure(s, "no entry dominates another under the archive's own relaxation", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), i != j), z3.Not(dom(el(i), el(j))))))
        P.ensure(s, "an evicted entry is dominated by the newcomer", z3.Implies(rng(x, N), z3.Or(there(x), dom(N, x))))
        P.ensure(s, "a rejected newcomer is dominated by or equal to an entry", z3.Or(there(N), z3.Exists([i], z3.And(rng(i, n), z3.Or(dom(el(i), N), EQ(el(i), N))))))
        P.ensure(s, "the answer tells whether the newcomer was stored", toz(v) == there(N))


@proof("C02", "OMOPSO: the leader archive with a size limit after a newcomer", "algorithms.OMOPSO.OMOPSO:LeaderArchive.add")
def leaders(P):
    """Archive.add and prune by their contracts (proved above and under C05): the archive stays mutually non-dominated,
    within its size, and loses at most one entry to the limit"""
    cls = P.get("algorithms.OMOPSO.OMOPSO:Individual")
    dom = P.fn1("LDOM", I, I, z3.BoolSort())
    n0, n1, size = P.int("n0", 0), P.int("n1", 0), P.int("size", 1)
    OLD, EL, PERM = P.fn1("OLD", I, I), P.fn1("EL", I, I), P.fn1("PERM", I, I)
    stored, worst = P.bool("stored"), P.int("worst", 0)
    i, j = z3.Ints("i!l j!l")
    P.assume(n0 <= size)
    P.assume(z3.And(n1 <= n0 + 1, n1 >= z3.If(stored, 1, 0)))
    P.assume(z3.Implies(z3.Not(stored), n1 <= n0))
    P.assume(worst < n1)
    apart = z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n1), rng(j, n1), i != j), z3.And(EL(i) != EL(j), z3.Not(dom(EL(i), EL(j))))))
    P.fact(apart)
    ref = P.lst(Seq(n0, lambda t: SymObj(cls, OLD(toz(t)))))
    o = P.obj("algorithms.OMOPSO.OMOPSO:LeaderArchive", {"archive": ref, "eta": 0, "size": size})
    new = SymObj(cls, P.int("NEW"))
    calls = []

    def add(e, st, a, kw, node):
        P.ensure(st, "the newcomer goes through the archive's own test", z3.BoolVal(a[0] is o or getattr(a[0], "addr", None) == o.addr))
        P.ensure(st, "that newcomer", a[1].term == new.term)
        st.heap[fld(P, o, "archive", st).addr] = HeapList(Seq(n1, lambda t: SymObj(cls, EL(toz(t)))))
        return [(st, stored)]

    def prune(e, st, a, kw, node):
        """takes one entry out (the one with the greatest crowding value), keeps the others in some order"""
        r = fld(P, o, "archive", st)
        sq = P.seq(r, st)
        P.ensure(st, "there is something to prune", toz(sq.n) >= 1)
        get = sq.get
        st.assume(z3.ForAll([i], z3.Implies(rng(i, toz(sq.n) - 1), z3.And(rng(PERM(i), toz(sq.n)), PERM(i) != worst))))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, toz(sq.n) - 1), rng(j, toz(sq.n) - 1), i != j), PERM(i) != PERM(j))))
        st.heap[r.addr] = HeapList(Seq(toz(sq.n) - 1, lambda t: get(PERM(toz(t)))))
        return [(st, None)]
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:Archive.add"] = add
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:LeaderArchive.prune"] = prune
    for s, v in P.call(P.method(o, "add"), [o, new]):
        sq = P.seq(fld(P, o, "archive", s), s)
        n, el = toz(sq.n), lambda t: sq.get(t).term
        P.ensure(s, "never more than the limit", n <= size)
        P.ensure(s, "no entry dominates another", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), i != j), z3.Not(dom(el(i), el(j))))))
        P.ensure(s, "only what the archive's test kept", z3.ForAll([i], z3.Implies(rng(i, n), z3.Exists([j], z3.And(rng(j, n1), el(i) == EL(j))))))
        P.ensure(s, "nothing is crowded out below the limit", z3.Implies(n1 <= size, n == n1))
        P.ensure(s, "at most one entry is crowded out", n >= n1 - 1)
        P.ensure(s, "the answer is that of the archive", toz(v) == stored)
