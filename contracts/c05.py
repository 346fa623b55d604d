"""C05: survivor selection - any number of individuals, any selection criterion values"""
from .lib import *
from pydv import symmap

I, B, RL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
IND = ClassVal("individual", None, [], {}, None)
DIND = ClassVal("dict:individual", None, [], {}, None)


def rng(x, n):
    return z3.And(0 <= x, x < n)


class Pool:
    """any number N of individuals (numbered 0..N-1)"""

    def __init__(self, P, cls=IND):
        self.P, self.N, self.cls = P, P.int("N", 0), cls
        self.inds = P.lst(Seq(self.N, lambda i: SymObj(cls, toz(i))))

    def field(self, name, fn):
        self.P.st.heap[("F", self.cls.name, name)] = FMap(fn)

    def lists(self, st):
        """the local lists of individuals of the running function and of the objects"""
        out = []
        for fr in [st.frames[st.cur]] + [o.fields for o in st.heap.values() if isinstance(o, HeapObj)]:
            for v in fr.values():
                if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)) and v not in out and v.addr in st.heap:
                    try:
                        x = st.heap[v.addr].seq.get(z3.Int("i?"))
                    except Unsupported:
                        continue
                    if isinstance(x, SymObj) and x.cls is self.cls:
                        out.append(v)
        return out

    def slots(self, st):
        """the same as functions of the state: what the variable or field refers to then"""
        found, out = self.lists(st), []
        for n, v in st.frames[st.cur].items():
            if any(v is x for x in found):
                out.append(lambda s, n=n: s.frames[st.cur][n])
        for a, h in st.heap.items():
            if isinstance(h, HeapObj):
                out += [lambda s, a=a, n=n: s.heap[a].fields[n] for n, v in h.fields.items() if any(v is x for x in found)]
        return out

    def locals(self, st):
        """the local lists that may hold individuals"""
        return list(dict.fromkeys(v for v in st.frames[st.cur].values() if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef))))

    def kept(self, st, v, size):
        """candidate invariants of a list of survivors that is shortened step by step"""
        i, j = z3.Ints("i!k j!k")
        sq = lambda s: self.P.seq(v(s) if callable(v) else v, s)
        n = lambda s: toz(sq(s).n)
        el = lambda s, i: sq(s).get(i).term
        return [lambda s, k: n(s) >= size,
                lambda s, k: n(s) <= self.N,
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, n(s)), rng(el(s, i), self.N))),
                lambda s, k: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n(s)), rng(j, n(s)), i != j), el(s, i) != el(s, j)))]

    def map(self, get, vk="real", default=None):
        d = DictRef(self.P.eng.alloc(self.P.st, HeapDict()))
        self.P.st.heap[d.addr] = symmap.heapdict(symmap.SMap(self.cls, vk, None, get, lambda t: rng(t, self.N)), default)
        return d

    def members(self, s, v):
        """(length, element) of a resulting list of individuals"""
        sq = self.P.seq(v, s)

        def el(i):
            if sq.is_lit and sq.n == 0:
                return z3.IntVal(-1)
            x = sq.get(i)
            if not isinstance(x, SymObj):
                raise Unsupported("result of another kind")
            return x.term
        return toz(sq.n), el

    def subset(self, s, v, size):
        """the survivors are `size` different members of the pool"""
        P = self.P
        n, el = self.members(s, v)
        i, j = z3.Ints("i!s j!s")
        P.have(s, "size of the surviving population", n == size)
        P.have(s, "survivors are members of the pool", z3.ForAll([i], z3.Implies(rng(i, n), rng(el(i), self.N))))
        P.have(s, "no individual survives twice", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), i != j), el(i) != el(j))))
        return n, el

    def best(self, s, v, rank, what):
        """no survivor is worse than a discarded member of the pool"""
        n, el = self.members(s, v)
        i, j, y = z3.Ints("i!b j!b y!b")
        w = self.P.eng.fresh_int("discarded")
        mention(self.P, s, w)
        self.P.ensure(s, what, z3.Implies(z3.And(rng(w, self.N), z3.ForAll([j], z3.Implies(rng(j, n), el(j) != w))),
                                          z3.ForAll([i], z3.Implies(rng(i, n), rank(el(i)) <= rank(w)))))


@proof("C05", "NSGAII: survivors fill the population front by front", "algorithms.NSGAII.NSGAII:NSGAII._environmental_selection")
def nsgaii(P):
    w = Pool(P)
    size = P.int("size", 0)
    RANK, DIST = P.fn1("RANK", I, I), P.fn1("DIST", I, RL)
    t = z3.Int("t!r")
    P.fact(z3.ForAll([t], DIST(t) >= 0))
    d = P.get("algorithms.NSGAII.NSGAII:NSGAII")
    o = P.obj(d, dict(individuals=w.inds, population_size=size,
                      nsga_rank=w.map(lambda t: RANK(t), "num", Builtin("int")), dist=w.map(lambda t: DIST(t), "real", Builtin("float"))))
    for s, v in P.call(P.method(o, "_environmental_selection"), [o]):
        r = fld(P, o, "individuals", s)
        w.subset(s, r, z3.If(w.N <= size, w.N, size))
        w.best(s, r, lambda x: RANK(x), "no survivor's front is later than a discarded individual's front")


@proof("C05", "SPEA2: the archive keeps the best by strength, shortened among the non-dominated only", "algorithms.SPEA2.SPEA2:SPEA2.environmental_selection, algorithms.SPEA2.SPEA2:SPEA2.get_domination_index", budget=120)
def spea2(P):
    w = Pool(P, DIND)
    size, A = P.int("size", 1), P.int("A", 0)
    P.assume(A <= w.N)
    FIT = P.fn1("FIT", I, RL)
    w.field("fitness", lambda t: FIT(t))
    arch = P.lst(Seq(A, lambda i: SymObj(DIND, toz(i))))
    pop = P.lst(Seq(w.N - A, lambda i: SymObj(DIND, A + toz(i))))
    i = z3.Int("i!p")

    def cands(eng, st):
        sq = eng.loop_seq
        out = []
        if sq is not None:
            def f(x):
                x = x[1] if isinstance(x, tuple) else x
                return FIT(x.term)
            out.append(lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), f(sq.get(i)) <= 1)))
            return out
        for v in w.lists(st):
            n, el = w.members(st, v)
            out += w.kept(st, v, size)
            out.append(lambda s, k, v=v: z3.ForAll([i], z3.Implies(rng(i, w.members(s, v)[0]), FIT(w.members(s, v)[1](i)) <= 1)))
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    P.inv_timeout(800)

    def pick(e, st, a, kw, node):
        """contract of choose_to_truncate (proved below): a member of the given list"""
        n, el = w.members(st, a[-1])
        P.ensure(st, "only a non-empty archive is shortened", n >= 1)
        r = e.fresh_int("worst")
        st.assume(rng(r, n))
        return [(st, SymObj(DIND, el(r)))]
    P.eng.contracts["algorithms.SPEA2.SPEA2:SPEA2.choose_to_truncate"] = pick
    o = P.obj("algorithms.SPEA2.SPEA2:SPEA2", {"__archive_size": size})
    for s, v in P.call(P.method(o, "environmental_selection"), [o, pop, arch]):
        n, el = w.subset(s, v, z3.If(w.N <= size, w.N, size))
        j = z3.Int("j!q")
        d = P.eng.fresh_int("discarded")
        mention(P, s, d)
        out = z3.And(rng(d, w.N), z3.ForAll([j], z3.Implies(rng(j, n), el(j) != d)))
        P.ensure(s, "a discarded individual is no better, or it was crowded out among the non-dominated", z3.Implies(out, z3.Or(
            z3.ForAll([j], z3.Implies(rng(j, n), FIT(el(j)) <= FIT(d))),
            z3.ForAll([j], z3.Implies(rng(j, n), FIT(el(j)) <= 1)))))


ENT = ClassVal("tuple:entry", None, [], {}, None)
LEX = z3.Function("LEX", I, I, I, B)     # LEX(l, a, b): from place l on, the distances of a are not after those of b


def lex_def(P, D, L, level):
    """the definition, at the places where it is needed"""
    at = lambda l, a, b: LEX(l, a, b) == z3.Or(l >= L, D(a, l) < D(b, l), z3.And(D(a, l) == D(b, l), LEX(l + 1, a, b)))
    a, b, l = z3.Ints("a!x b!x l!x")
    P.fact(z3.ForAll([a, b], at(level, a, b), patterns=[LEX(level, a, b)]))
    x, k = P.eng.fresh_int("entry"), P.eng.fresh_int("place")
    P.ensure(P.st, "lemma: an entry is not after itself (last place)", z3.Implies(z3.And(at(k, x, x), k >= L), LEX(k, x, x)))
    P.ensure(P.st, "lemma: an entry is not after itself (step)", z3.Implies(z3.And(at(k, x, x), LEX(k + 1, x, x)), LEX(k, x, x)))
    P.fact(z3.ForAll([l, a], LEX(l, a, a), patterns=[LEX(l, a, a)]))


@proof("C05", "SPEA2: the entry with the smallest distances", "algorithms.SPEA2.SPEA2:SPEA2.get_min")
def get_min(P):
    N, L, level = P.int("N", 1), P.int("L", 0), P.int("level", 0)
    E, D = P.fn1("ENTRY", I, I), P.fn1("DIST", I, I, RL)
    lex_def(P, D, L, level)
    P.st.heap[("F", "tuple:entry", "[1]")] = FMap(lambda t: Seq(L, lambda l: (Opaque("individual"), D(t, toz(l)))))
    dist = P.lst(Seq(N, lambda i: SymObj(ENT, E(toz(i)))))
    i = z3.Int("i!g")
    given = P.seq(dist, P.st)

    def rec(e, st, a, kw, node):
        sq, lv = e.seq_of(a[-2], st), toz(a[-1])
        P.ensure(st, "the recursive call gets a non-empty list and goes one place further", z3.And(toz(sq.n) >= 1, level < L, lv == level + 1))
        r = e.fresh_int("least")
        st.assume(rng(r, toz(sq.n)))
        x = sq.get(r)
        st.facts.append(z3.ForAll([i], z3.Implies(rng(i, toz(sq.n)), LEX(lv, x.term, sq.get(i).term))))
        return [(st, x)]
    P.eng.contracts["algorithms.SPEA2.SPEA2:SPEA2.get_min"] = rec

    def cands(eng, st):
        sq = eng.loop_seq
        out = []
        for n, v in st.frames[st.cur].items():
            if isinstance(v, ListRef) and sq is not None and P.seq(v, st).is_lit:
                for src in [x for x in st.frames[st.cur].values() if isinstance(x, ListRef) and not P.seq(x, st).is_lit and P.seq(x, st) is not given]:
                    S = lambda s, v=v: P.seq(v, s)
                    out += [lambda s, k, S=S: toz(S(s).n) == k + 1,
                            lambda s, k, S=S, src=src: z3.ForAll([i], z3.Implies(rng(i, toz(S(s).n)), S(s).get(i).term == P.seq(src, s).get(i).term)),
                            lambda s, k, S=S: z3.ForAll([i], z3.Implies(rng(i, toz(S(s).n)), D(S(s).get(i).term, level) == D(S(s).get(0).term, level)))]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    P.inv_timeout(2000)
    o = P.obj("algorithms.SPEA2.SPEA2:SPEA2", {})
    for s, v in P.call(P.method(o, "get_min"), [o, dist, level]):
        w = P.eng.fresh_int("other")
        mention(P, s, w)
        P.ensure(s, "one of the given entries", z3.Exists([i], z3.And(rng(i, N), E(i) == v.term)))
        P.have(s, "no entry is nearer at the given place", z3.Or(level >= L, z3.Not(rng(w, N)), D(v.term, level) <= D(E(w), level)))
        P.have(s, "no other entry is as near, or the comparison goes on", z3.Or(level >= L, z3.Not(rng(w, N)), D(v.term, level) < D(E(w), level), E(w) == v.term,
                                                                              z3.And(D(v.term, level) == D(E(w), level), LEX(level + 1, v.term, E(w)))))
        P.ensure(s, "no entry has smaller distances from the given place on", z3.Implies(rng(w, N), LEX(level, v.term, E(w))))


@proof("C05", "SPEA2: the archive member removed is the one closest to the others", "algorithms.SPEA2.SPEA2:SPEA2.choose_to_truncate")
def truncate(P):
    w = Pool(P, DIND)
    P.assume(w.N >= 1)
    EUC = P.fn1("EUCLID", I, I, RL)
    V = ClassVal("objectives", None, [], {}, None)
    w.field("objectives", lambda t: SymObj(V, t))
    P.eng.contracts["metrics.metrics_utils:euclid_distance"] = lambda e, st, a, kw, node: [(st, EUC(a[0].term, a[1].term))]
    chosen = []

    def least(e, st, a, kw, node):
        """contract of get_min (proved above)"""
        sq, lv = e.seq_of(a[-2], st), a[-1]
        P.have(st, "every archive member is compared", toz(sq.n) == w.N)
        P.ensure(st, "the distances are compared from the nearest on", toz(lv) == 0)
        i, j, k = e.fresh_int("i"), e.fresh_int("j"), e.fresh_int("k")
        t = st.copy()
        t.assume(z3.And(rng(i, w.N), rng(j, w.N), rng(k, w.N)))
        ind, row = sq.get(i)
        row = e.seq_of(row, t)
        P.ensure(t, "entry of the member itself", ind.term == i)
        P.ensure(t, "as many distances as members", toz(row.n) == w.N)
        (x, dx), (y, dy) = row.get(j), row.get(k)
        mention(P, t, j, k)
        P.ensure(t, "a distance of this member to a member", z3.And(rng(x.term, w.N), toz(dx) == EUC(i, x.term)))
        P.ensure(t, "every member's distance counted once", z3.Implies(j != k, x.term != y.term))
        P.ensure(t, "distances in ascending order", z3.Implies(j <= k, toz(dx) <= toz(dy)))
        r = e.fresh_int("least")
        st.assume(rng(r, w.N))
        chosen.append(r)
        return [(st, sq.get(r))]
    P.eng.contracts["algorithms.SPEA2.SPEA2:SPEA2.get_min"] = least
    o = P.obj("algorithms.SPEA2.SPEA2:SPEA2", {})
    for s, v in P.call(P.method(o, "choose_to_truncate"), [o, w.inds]):
        P.ensure(s, "the member whose entry is least is the one removed", z3.Or(*[v.term == r for r in chosen]) if len(chosen) > 1 else v.term == chosen[0])


@proof("C05", "SMS-EMOA: an individual's contribution is what the front's volume loses without it", "algorithms.SMSEMOA.SMSEMOA:SMSEMOA.calculate_hypervolume_contribution")
def contribution(P):
    w = Pool(P)
    V = ClassVal("objectives", None, [], {}, None)
    OBJ = P.fn1("OBJ", I, I)
    w.field("objectives", lambda t: SymObj(V, OBJ(t)))
    REF = Opaque("reference point")
    ALL, WO = z3.Real("VOLUME"), z3.Function("VOLUME_WITHOUT", I, RL)

    def compute(e, st, a, kw, node):
        """the hypervolume of a list of points: a function of the points"""
        sq = e.seq_of(a[-1], st)
        n, r = toz(sq.n), e.fresh_real("volume")
        c, d = e.fresh_int("differs"), e.fresh_fun("differs", 1, I)
        i = z3.Int("i!v")
        other = lambda i: OBJ(z3.If(d(i) < i, d(i), d(i) + 1))
        st.facts.append(z3.Or(n != w.N, z3.And(rng(c, n), sq.get(c).term != OBJ(c)), r == ALL))
        st.facts.append(z3.ForAll([i], z3.Or(n != w.N - 1, z3.And(rng(d(i), n), sq.get(d(i)).term != other(i)), r == WO(i)), patterns=[WO(i)]))
        return [(st, r)]
    P.eng.contracts["algorithms.base.hv:HyperVolume.compute"] = compute
    o = P.obj("algorithms.SMSEMOA.SMSEMOA:SMSEMOA", {"reference_point": REF})
    for s, v in P.call(P.method(o, "calculate_hypervolume_contribution"), [o, w.inds]):
        sq = P.seq(v, s)
        P.have(s, "one contribution per individual", toz(sq.n) == w.N)
        i = P.eng.fresh_int("i")
        x, c = sq.get(i)
        P.ensure(s, "contribution: the volume lost without the individual", z3.Implies(rng(i, w.N), z3.And(x.term == i, toz(c) == ALL - WO(i))))


@proof("C05", "SMS-EMOA: the least contributor of the last front is removed", "algorithms.SMSEMOA.SMSEMOA:SMSEMOA.reduce_population")
def reduce(P):
    w = Pool(P)
    P.assume(w.N >= 1)
    F, SIZE, FR, CON = P.int("F", 1), P.fn1("SIZE", I, I), P.fn1("FRONT", I, I, I), P.fn1("CONTRIBUTION", I, RL)
    f, i, j = z3.Ints("f!f i!f j!f")
    P.fact(z3.ForAll([f], z3.Implies(rng(f - 1, F), SIZE(f) >= 1)))
    P.fact(z3.ForAll([f, i], z3.Implies(z3.And(rng(f - 1, F), rng(i, SIZE(f))), rng(FR(f, i), w.N))))
    P.fact(z3.ForAll([f, i, j], z3.Implies(z3.And(rng(i, SIZE(f)), rng(j, SIZE(f)), i != j), FR(f, i) != FR(f, j))))

    def sort(e, st, a, kw, node):
        """contract of nd_sort (proved under C03): fronts numbered from 1, none empty"""
        P.ensure(st, "the whole pool is sorted", z3.And(toz(e.seq_of(a[0], st).n) == w.N))
        d = DictRef(e.alloc(st, HeapDict()))
        st.heap[d.addr] = symmap.heapdict(symmap.SMap("int", "list", None, lambda t: Seq(SIZE(t), lambda i: SymObj(IND, FR(t, toz(i)))), lambda t: rng(t - 1, F)), None)
        return [(st, d)]
    P.eng.contracts["algorithms.SMSEMOA.SMSEMOA:nd_sort"] = sort

    def contr(e, st, a, kw, node):
        sq = e.seq_of(a[-1], st)
        P.ensure(st, "contributions within the last front only", z3.And(toz(sq.n) == SIZE(F), z3.ForAll([i], z3.Implies(rng(i, SIZE(F)), sq.get(i).term == FR(F, i)))))
        r = ListRef(e.alloc(st, HeapList(Seq(SIZE(F), lambda i: (SymObj(IND, FR(F, toz(i))), CON(FR(F, toz(i))))))))
        return [(st, r)]
    P.eng.contracts["algorithms.SMSEMOA.SMSEMOA:SMSEMOA.calculate_hypervolume_contribution"] = contr
    o = P.obj("algorithms.SMSEMOA.SMSEMOA:SMSEMOA", {"reference_point": Opaque("reference point")})
    for s, v in P.call(P.method(o, "reduce_population"), [o, w.inds]):
        n, el = w.subset(s, v, w.N - 1)
        x = P.eng.fresh_int("removed")
        mention(P, s, x)
        out = z3.And(rng(x, w.N), z3.ForAll([j], z3.Implies(rng(j, n), el(j) != x)))
        P.ensure(s, "the one removed is of the last front and contributes least", z3.Implies(out, z3.And(
            z3.Exists([i], z3.And(rng(i, SIZE(F)), FR(F, i) == x)), z3.ForAll([i], z3.Implies(rng(i, SIZE(F)), CON(x) <= CON(FR(F, i)))))))


class Fronts:
    """the fronts 1..F of a pool sorted before (contract of the sort, proved under C03): every member stands in front
    RANK at place PLACE, no front is empty; PRE(f) counts the members of the first f fronts"""

    def __init__(self, P, w, default=True):
        self.P, self.w = P, w
        self.F = F = P.int("F", 0)
        self.SIZE, self.FR, self.RANK, self.PLACE, self.PRE = SIZE, FR, RANK, PLACE, PRE = \
            P.fn1("SIZE", I, I), P.fn1("FRONT", I, I, I), P.fn1("RANK", I, I), P.fn1("PLACE", I, I), P.fn1("PRE", I, I)
        f, i, a = z3.Ints("f!f i!f a!f")
        P.fact(z3.ForAll([f], z3.If(rng(f - 1, F), SIZE(f) >= 1, SIZE(f) == 0), patterns=[SIZE(f)]))
        P.fact(z3.ForAll([f, i], z3.Implies(rng(i, SIZE(f)), z3.And(rng(FR(f, i), w.N), RANK(FR(f, i)) == f, PLACE(FR(f, i)) == i)), patterns=[FR(f, i)]))
        P.fact(z3.ForAll([a], z3.Implies(rng(a, w.N), z3.And(rng(RANK(a) - 1, F), rng(PLACE(a), SIZE(RANK(a))), FR(RANK(a), PLACE(a)) == a)), patterns=[RANK(a)]))
        P.fact(z3.ForAll([f], z3.Implies(f >= 1, PRE(f) == PRE(f - 1) + SIZE(f)), patterns=[PRE(f)]))
        P.fact(PRE(0) == 0)
        P.fact(PRE(F) == w.N)
        self.dict = DictRef(P.eng.alloc(P.st, HeapDict()))
        P.st.heap[self.dict.addr] = symmap.heapdict(symmap.SMap("int", "list", None, lambda t: Seq(SIZE(t), lambda i: SymObj(w.cls, FR(t, toz(i)))), lambda t: rng(t - 1, F + 1)), Builtin("list"))

    def at(self, x):
        """place of an individual when the fronts are written one after another"""
        return self.PRE(self.RANK(x) - 1) + self.PLACE(x)

    def filling(self, eng, st):
        """candidate invariants: the list holds the fronts before front number `f`"""
        out = []
        i, a = z3.Ints("i!c a!c")
        ints = [n for n, v in st.frames[st.cur].items() if is_num(v) and is_int(v)]
        for v in self.w.locals(st):
            for n in ints:
                f = lambda s, n=n: toz(s.frames[st.cur][n])
                m = lambda s, v=v: self.w.members(s, v)
                out += [lambda s, k, f=f: z3.And(1 <= f(s), f(s) <= self.F + 1),
                        lambda s, k, f=f, m=m: m(s)[0] == self.PRE(f(s) - 1),
                        lambda s, k, m=m: m(s)[0] <= self.size,
                        lambda s, k, f=f, m=m: z3.ForAll([i], z3.Implies(rng(i, m(s)[0]), z3.And(rng(m(s)[1](i), self.w.N), self.RANK(m(s)[1](i)) < f(s), self.at(m(s)[1](i)) == i))),
                        lambda s, k, f=f, m=m: z3.ForAll([a], z3.Implies(z3.And(rng(a, self.w.N), self.RANK(a) < f(s)), z3.And(rng(self.at(a), m(s)[0]), m(s)[1](self.at(a)) == a)))]
                out += [lambda s, k, n2=n2, m=m: toz(s.frames[st.cur][n2]) == m(s)[0] for n2 in ints if n2 != n]
        return out


@proof("C05", "NSGA-III: survivors fill the population front by front", "algorithms.NSGAIII.NSGAIII:NSGAIII.create_final_population")
def nsga3(P):
    w = Pool(P)
    fr = Fronts(P, w)
    size = P.int("size", 0)
    P.assume(size <= w.N)
    fr.size = size
    P.eng.loop_inv = fr.filling
    P.inv_timeout(800)
    o = P.obj("algorithms.NSGAIII.NSGAIII:NSGAIII", {"population_size": size})
    for s, v in P.call(P.method(o, "create_final_population"), [o, fr.dict]):
        r = fld(P, o, "individuals", s)
        w.subset(s, r, size)
        w.best(s, r, lambda x: fr.RANK(x), "no survivor's front is later than a discarded individual's front")


@proof("C05", "IBEA: always the individual with the worst current fitness is removed", "algorithms.IBEA.IBEA:IBEA._environmental_selection")
def ibea(P):
    w = Pool(P)
    size, k, c = P.int("size", 0), P.real("k"), P.real("c")
    P.assume(size <= w.N)
    FIT0, IN = P.fn1("FIT0", I, RL), P.fn1("INDICATOR", I, I, RL)
    w.field("FIT", lambda t: FIT0(t))       # ghost: the current fitness
    fit = lambda s, t: s.heap[("F", "individual", "FIT")].get(t)
    fmap = w.map(lambda t: FIT0(t), "real")
    pair = lambda f: lambda key: f(key[0].term, key[1].term)
    ind = DictRef(P.eng.alloc(P.st, HeapDict((), None, dict(get=pair(IN), has=pair(lambda a, b: z3.And(rng(a, w.N), rng(b, w.N)))))))
    i = z3.Int("i!i")
    LOSS = P.fn1("LOSS", RL, RL)
    P.eng.contracts["lib:math.exp"] = lambda e, st, a, kw, node: [(st, LOSS(toz(a[0])))]
    EPS = z3.RealVal(2) ** -52
    div = toz(c) * toz(k) + z3.simplify(EPS)
    div = z3.If(div >= 0, div, -div)
    P.assume(div != 0)
    loss = lambda r, t: LOSS(-(IN(r, t) / div))

    def removed(st, addr, index, v):
        """one step of the selection: v leaves, every fitness changes by what v accounted for"""
        if not (isinstance(v, SymObj) and v.cls is IND):
            return
        n, el = w.members(st, ListRef(addr))
        r = v.term
        P.ensure(st, "the removed individual has the worst current fitness", z3.ForAll([i], z3.Implies(rng(i, n), fit(st, r) <= fit(st, el(i)))))
        old = st.heap[("F", "individual", "FIT")]
        st.heap[("F", "individual", "FIT")] = FMap(lambda t: old.get(t) + loss(r, t))
    P.eng.on_remove = removed

    def cands(eng, st):
        sq = eng.loop_seq
        out = []
        mp = lambda s, t: symmap.tomap(s, fmap.addr).get(t)
        out.append(lambda s, k: z3.ForAll([i], symmap.tomap(s, fmap.addr).has(i) == rng(i, w.N)))
        if sq is None:
            for v in w.slots(st):
                m = lambda s, v=v: w.members(s, v(s))
                out += w.kept(st, v, size)
                out.append(lambda s, k, m=m: z3.ForAll([i], z3.Implies(rng(i, m(s)[0]), mp(s, m(s)[1](i)) == fit(s, m(s)[1](i)))))
            return out
        el = lambda i: sq.get(i).term
        out.append(lambda s, k: z3.ForAll([i], z3.Implies(z3.And(rng(i, toz(sq.n)), i < k), mp(s, el(i)) == fit(s, el(i)))))
        out.append(lambda s, k: z3.ForAll([i], z3.Implies(z3.And(rng(i, toz(sq.n)), i >= k), mp(s, el(i)) == mp(st, el(i)))))
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    P.inv_timeout(1500)
    o = P.obj("algorithms.IBEA.IBEA:IBEA", dict(individuals=w.inds, population_size=size, fitness=fmap, indicators=ind, c=c, k=k))
    for s, v in P.call(P.method(o, "_environmental_selection"), [o]):
        w.subset(s, fld(P, o, "individuals", s), size)


@proof("C05", "OMOPSO: the leader removed is the one with the greatest crowding value", "algorithms.OMOPSO.OMOPSO:LeaderArchive.prune")
def prune(P):
    cls = P.get("algorithms.OMOPSO.OMOPSO:Individual")
    w = Pool(P, cls)
    P.assume(w.N >= 1)
    CROWD, PERM, INV = P.fn1("CROWD", I, RL), P.fn1("ORDER", I, I), P.fn1("PLACE", I, I)
    t = z3.Int("t!c")
    P.fact(z3.ForAll([t], z3.Implies(rng(t, w.N), z3.And(rng(PERM(t), w.N), INV(PERM(t)) == t)), patterns=[PERM(t)]))
    P.fact(z3.ForAll([t], z3.Implies(rng(t, w.N), z3.And(rng(INV(t), w.N), PERM(INV(t)) == t)), patterns=[INV(t)]))
    w.field("crowd_val", lambda t: P.real("unset"))
    o = P.obj("algorithms.OMOPSO.OMOPSO:LeaderArchive", {"archive": w.inds, "eta": 0, "size": P.int("size", 0)})

    def crowding(e, st, a, kw, node):
        """computes the crowding values and leaves the archive in some order"""
        st.heap[("F", cls.name, "crowd_val")] = FMap(lambda t: CROWD(t))
        st.heap[w.inds.addr] = HeapList(Seq(w.N, lambda i: SymObj(cls, PERM(toz(i)))))
        return [(st, None)]
    P.eng.contracts["algorithms.OMOPSO.OMOPSO:LeaderArchive.crowding"] = crowding
    for s, v in P.call(P.method(o, "prune"), [o]):
        r = fld(P, o, "archive", s)
        n, el = w.subset(s, r, w.N - 1)
        i, j = z3.Ints("i!r j!r")
        x = P.eng.fresh_int("removed")
        s.assume(P.eng.fresh_int("place") == INV(x))
        P.ensure(s, "no leader kept has a greater crowding value than the one removed", z3.Implies(
            z3.And(rng(x, w.N), z3.ForAll([j], z3.Implies(rng(j, n), el(j) != x)), *[z3.Implies(rng(j, n), el(j) != x) for j in (INV(x), INV(x) - 1)]),
            z3.ForAll([i], z3.Implies(rng(i, n), CROWD(el(i)) <= CROWD(x)))))


SP = "algorithms.SPEA2.SPEA2:SPEA2."


@proof("C05", "SPEA2: the strength of an individual is the number of those it dominates", SP + "calculate_dominated")
def spea2_strength(P):
    w = Pool(P, DIND)
    DOM2 = P.fn1("DOMINATES", I, I, B)
    t = z3.Int("t!d")
    P.fact(z3.ForAll([t], z3.Not(DOM2(t, t))))
    V = ClassVal("objectives", None, [], {}, None)
    w.field("objectives", lambda t: SymObj(V, t))
    OLD = P.fn1("OLDSTRENGTH", I, I)
    w.field("dominates", lambda t: OLD(t))
    P.eng.contracts["evotools.ea_utils:dominates"] = lambda e, st, a, kw, node: [(st, DOM2(a[0].term, a[1].term))]
    count = lambda x: SUM(P, w.N, lambda j: z3.If(DOM2(x, toz(j)), 1, 0))
    count2 = lambda x: SUM(P, w.N, lambda j: z3.If(z3.And(x != toz(j), DOM2(x, toz(j))), 1, 0))
    x = P.int("one")
    P.ensure(P.st, "lemma: leaving the individual itself out changes nothing", count(x) == count2(x))
    P.fact(z3.ForAll([x], count(x) == count2(x), patterns=[count2(x)]))
    i = z3.Int("i!d")
    F = lambda s, x: R(fld(P, SymObj(DIND, x), "dominates", s))
    P.eng.loop_inv = lambda eng, st: [lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), F(s, i) == count(i)))]
    P.eng.inv_for = True
    o = P.obj("algorithms.SPEA2.SPEA2:SPEA2", {})
    for s, v in P.call(P.method(o, "calculate_dominated"), [o, w.inds]):
        x = P.eng.fresh_int("ind")
        s.assume(rng(x, w.N))
        P.ensure(s, "strength", R(fld(P, SymObj(DIND, x), "dominates", s)) == count(x))


@proof("C05", "SPEA2: fitness is the strength of the dominators and a density below one: at most one exactly for the non-dominated", SP + "calculate_fitnesses, " + SP + "calculate_raw_fitness, " + SP + "calculate_density")
def spea2_fitness(P):
    w = Pool(P, DIND)
    A = P.int("A", 0)
    P.assume(z3.And(A <= w.N, w.N >= 2))     # the tournament needs two individuals anyway
    DOM2, EUC = P.fn1("DOMINATES", I, I, B), P.fn1("EUCLID", I, I, RL)
    t, u = z3.Int("t!d"), z3.Int("u!d")
    P.fact(z3.ForAll([t], z3.Not(DOM2(t, t))))
    P.fact(z3.ForAll([t, u], EUC(t, u) >= 0))
    V = ClassVal("objectives", None, [], {}, None)
    w.field("objectives", lambda t: SymObj(V, t))
    w.field("dominates", lambda t: P.fn1("OLDSTRENGTH", I, I)(t))
    w.field("fitness", lambda t: P.fn1("OLDFITNESS", I, RL)(t))
    STR = P.fn1("STRENGTH", I, I)
    P.eng.contracts["evotools.ea_utils:dominates"] = lambda e, st, a, kw, node: [(st, DOM2(a[0].term, a[1].term))]
    P.eng.contracts["metrics.metrics_utils:euclid_distance"] = lambda e, st, a, kw, node: [(st, EUC(a[0].term, a[1].term))]
    used = []
    cost = P.int("COST", 0)

    def objectives(e, st, a, kw, node):
        """contract of calculate_objectives (proved under C08)"""
        used.append("objectives")
        return [(st, cost)]
    P.eng.contracts[SP + "calculate_objectives"] = objectives

    def strengths(e, st, a, kw, node):
        """contract of calculate_dominated (proved above)"""
        sq = e.seq_of(a[-1], st)
        used.append("strengths")
        i = e.fresh_int("i")
        x = st.copy()
        x.assume(rng(i, w.N))
        P.ensure(x, "strengths are counted over the whole pool", z3.And(toz(sq.n) == w.N, sq.get(i).term == i))
        # what dominates some member has a positive strength
        t, u = z3.Int("t!d"), z3.Int("u!d")
        e.fact(st, z3.ForAll([t, u], z3.Implies(z3.And(rng(t, w.N), rng(u, w.N), DOM2(t, u)), STR(t) >= 1)))
        e.fact(st, z3.ForAll([t], STR(t) >= 0))
        w.field2 = st.heap[("F", DIND.name, "dominates")] = FMap(lambda t: STR(t))
        return [(st, None)]
    P.eng.contracts[SP + "calculate_dominated"] = strengths
    arch = P.lst(Seq(A, lambda i: SymObj(DIND, toz(i))))
    pop = P.lst(Seq(w.N - A, lambda i: SymObj(DIND, A + toz(i))))
    F = lambda s, x: R(fld(P, SymObj(DIND, x), "fitness", s))
    raw = lambda x: SUM(P, w.N, lambda j: z3.If(DOM2(toz(j), x), STR(toz(j)), 0))
    i = z3.Int("i!d")
    P.eng.loop_inv = lambda eng, st: [lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), z3.And(F(s, i) > z3.ToReal(raw(i)), F(s, i) < z3.ToReal(raw(i)) + 1)))]
    P.eng.inv_for = True
    o = P.obj("algorithms.SPEA2.SPEA2:SPEA2", {})
    for s, v in P.call(P.method(o, "calculate_fitnesses"), [o, pop, arch]):
        if "strengths" not in used or "objectives" not in used:
            raise Unsupported("fitness computed another way")
        x = P.eng.fresh_int("ind")
        s.assume(rng(x, w.N))
        P.ensure(s, "the cost is that of the evaluations", toz(v) == cost)
        P.ensure(s, "fitness is the raw fitness and a density between nought and one", z3.And(F(s, x) > R(raw(x)), F(s, x) < R(raw(x)) + 1))
        a, b = s.copy(), s.copy()
        a.facts.append(z3.ForAll([u], z3.Implies(rng(u, w.N), z3.Not(DOM2(u, x)))))
        P.have(a, "no dominator, no raw fitness", R(raw(x)) == 0)
        P.ensure(a, "at most one for the non-dominated", F(a, x) <= 1)
        d, m = P.eng.fresh_int("dominator"), P.eng.fresh_int("m")
        b.assume(z3.And(rng(d, w.N), DOM2(d, x)))
        part = lambda n: SUM(P, n, lambda j: z3.If(DOM2(toz(j), x), STR(toz(j)), 0))
        c = b.copy()
        c.assume(z3.And(m >= d, m < w.N))
        unfold(P, c, m, lambda j: z3.If(DOM2(toz(j), x), STR(toz(j)), 0))
        P.ensure(c, "lemma: the sum counts each dominator (first)", z3.Implies(m == d, z3.Implies(part(m) >= 0, part(m + 1) >= STR(d))))
        P.ensure(c, "lemma: a sum of strengths is not negative", part(m) >= 0)
        P.ensure(c, "lemma: the sum counts each dominator (step)", z3.Implies(part(m) >= STR(d), part(m + 1) >= STR(d)))
        b.assume(raw(x) >= STR(d))
        P.ensure(b, "above one for the dominated", F(b, x) > 1)


IB = "algorithms.IBEA.IBEA:IBEA."


@proof("C05", "IBEA: fitness is the loss by every other individual's indicator, scaled by the largest one", IB + "_calculate_fitness")
def ibea_fitness(P):
    w = Pool(P)
    P.assume(w.N >= 1)
    k = P.real("k")
    IN, VAL, LOSS = P.fn1("INDICATOR", RL, RL, RL), P.fn1("VALUE", I, RL), P.fn1("LOSS", RL, RL)
    w.field("v", lambda t: VAL(t))
    P.eng.contracts["lib:math.exp"] = lambda e, st, a, kw, node: [(st, LOSS(toz(a[0])))]
    o = P.obj("algorithms.IBEA.IBEA:IBEA", dict(individuals=w.inds, population_size=w.N, k=k,
                                                 indicator=UFun(lambda e, s, a: [(s, IN(toz(a[0]), toz(a[1])))], "indicator")))
    EPS = z3.simplify(z3.RealVal(2) ** -52)
    # the scale is a number other than zero (the indicators are finite and the weight is positive)
    P.assume(k > 0)
    pair = lambda a, b: IN(VAL(a), VAL(b))
    ab = lambda x: z3.If(x >= 0, x, -x)
    for s, v in P.call(P.method(o, "_calculate_fitness"), [o]):
        x, y = P.eng.fresh_int("x"), P.eng.fresh_int("y")
        s.assume(z3.And(rng(x, w.N), rng(y, w.N)))
        c = R(fld(P, o, "c", s))
        i, j = z3.Ints("i!m j!m")
        P.ensure(s, "the scale is no smaller than any indicator", c >= ab(pair(x, y)))
        P.ensure(s, "the scale is one of the indicators", z3.Exists([i, j], z3.And(rng(i, w.N), rng(j, w.N), c == ab(pair(i, j)))))
        P.ensure(s, "indicator of a pair", R(dget(P, s, fld(P, o, "indicators", s), (SymObj(IND, x), SymObj(IND, y)))) == pair(x, y))
        div = ab(c * k + EPS)
        P.ensure(s, "fitness of an individual", R(dget(P, s, fld(P, o, "fitness", s), SymObj(IND, x))) ==
                 SUM(P, w.N, lambda q: z3.If(x != toz(q), -LOSS(-(pair(toz(q), x) / div)), 0)))


@proof("C05", "IBEA: the indicator of a pair is the largest difference of their scaled objectives", IB + "EPlusIndicator.__call__, " + IB + "EPlusIndicator.__init__")
def ibea_indicator(P):
    M = P.int("M", 1)
    OBJ = P.fn1("SCALED", I, RL, RL)
    o = P.obj("algorithms.IBEA.IBEA:IBEA", dict(scaled_objectives=P.lst(Seq(M, lambda j: UFun(lambda e, s, a: [(s, OBJ(toz(j), toz(a[0])))], "scaled")))))
    a, b = P.real("a"), P.real("b")
    for s, ind in P.call(IB + "EPlusIndicator", [o]):
        for s2, v in P.call(ind, [a, b], st=s):
            j, i = P.eng.fresh_int("j"), z3.Int("i!m")
            s2.assume(rng(j, M))
            P.ensure(s2, "no objective differs more", R(v) >= OBJ(j, a) - OBJ(j, b))
            P.ensure(s2, "one objective differs as much", z3.Exists([i], z3.And(rng(i, M), R(v) == OBJ(i, a) - OBJ(i, b))))
