from .lib import *

I, Rl, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()


@proof("C11", "weighted choice: the element whose cumulative interval holds the draw", "evotools.random_tools:weighted_choice")
def weighted(P):
    n = P.int("n", 1)
    el, W = P.fn1("ELEMENT", I, I), P.fn1("WEIGHT", I, Rl)
    k = z3.Int("k!w")
    P.fact(z3.ForAll([k], W(k) >= 0, patterns=[W(k)]))
    w = lambda i: W(toz(i))
    draws = []

    def uniform(e, st, a, kw, node):
        """library contract of random.uniform: a number between its two arguments; the draw that equals the total
        has no interval of its own (see DESIGN.md) and is left out"""
        r = P.eng.fresh_real("draw")
        lo, hi = R(a[0]), R(a[1])
        P.ensure(st, "the draw is between 0 and the total weight", z3.And(lo == 0, hi == SUM(P, n, w)))
        st.assume(z3.And(lo <= r, r < hi))
        draws.append(r)
        return [(st, r)]
    P.eng.contracts["lib:random.uniform"] = uniform

    def cands(eng, st):
        out = []
        for nm, v in st.frames[st.cur].items():
            if is_num(v) and not is_bool(v):
                out += [lambda s, k, nm=nm: R(s.frames[st.cur][nm]) == SUM(P, k, w),
                        lambda s, k, nm=nm: z3.And([R(s.frames[st.cur][nm]) <= r for r in draws] or [z3.BoolVal(True)])]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    l = P.lst(Seq(n, lambda i: (el(toz(i)), W(toz(i)))))
    for s, v in P.call("evotools.random_tools:weighted_choice", [l]):
        if not draws:
            P.ensure(s, "a draw is made", False)
            continue
        r = draws[-1]
        P.ensure(s, "chosen by the draw", exists(n, lambda i: z3.And(toz(num(v)) == el(i), W(i) > 0, SUM(P, i, w) <= r, r < SUM(P, i, w) + W(i))))

IM = "algorithms.IMGA.IMGA:"
SOL = ClassVal("solution", None, [], {}, None)


def rng(x, n):
    return z3.And(0 <= x, x < toz(n))


def nest(sq):
    """lengths and elements of a list of lists of solutions"""
    def el(i, j):
        x = sq.get(i).get(j)
        if not isinstance(x, SymObj):
            raise Unsupported("list of something else")
        return x.term
    return (lambda i: toz(sq.get(i).n)), el


@proof("C11", "every solution of the initial population goes to exactly one island", IM + "IMGA.create_islands")
def partition(P):
    N, n, q = P.int("N", 0), P.int("islands", 1), P.int("quotient", 0)
    # definition of integer quotient and remainder
    P.assume(z3.And(N / n == q, N == q * n + N % n, 0 <= N % n, N % n < n))
    pop = P.lst(Seq(N, lambda i: SymObj(SOL, toz(i))))

    # contract of IMGA.Island(outer, population) (its body is under contract below): it holds the population it was given
    P.eng.contracts[IM + "Island"] = lambda e, st, a, kw, node: [(st, (a[0], a[1]))]
    P.eng.contracts[IM + "IMGA.Island"] = P.eng.contracts[IM + "Island"]
    o = P.obj(IM + "IMGA", dict(islands_number=n))
    i, j, i2, j2 = z3.Ints("i!n j!n i2!n j2!n")
    D = z3.ToReal(N) / z3.ToReal(n)
    P.have(P.st, "the quotient from below", D >= z3.ToReal(q))
    P.have(P.st, "the quotient from above", D < z3.ToReal(q) + 1)
    P.have(P.st, "the truncated quotient", z3.ToInt(D) == q)
    P.have(P.st, "products", z3.ForAll([i], z3.Implies(rng(i, n), z3.And(i * q >= 0, (i + 1) * q == i * q + q, i * q + q <= q * n)), patterns=[i * q]))

    def cands(eng, st):
        out = []
        for nm, v in st.frames[st.cur].items():
            if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)) and getattr(st.heap[v.addr].seq, "own", False):
                ln0, el0 = nest(st.heap[v.addr].seq)
                now = lambda s, nm=nm: nest(P.seq(s.frames[st.cur][nm], s))
                out += [lambda s, k, nm=nm: toz(P.seq(s.frames[st.cur][nm], s).n) == n,
                        lambda s, k, now=now: z3.ForAll([i], z3.Implies(rng(i, n), now(s)[0](i) == ln0(i) + z3.If(i < k, 1, 0))),
                        lambda s, k, now=now: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, ln0(i))), now(s)[1](i, j) == el0(i, j))),
                        lambda s, k, now=now: z3.ForAll([i], z3.Implies(rng(i, n), z3.Implies(i < k, now(s)[1](i, ln0(i)) == n * q + i)))]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, v in P.call(P.method(o, "create_islands"), [o, pop]):
        r = P.seq(v, s)
        P.have(s, "as many islands as asked for", toz(r.n) == n)
        x = r.get(z3.Int("i?"))
        P.ensure(s, "an island knows its model", isinstance(x, tuple) and isinstance(x[0], ObjRef) and x[0].addr == o.addr)
        ln, el = nest(Seq(r.n, lambda i: P.seq(r.get(i)[1], s)))
        P.have(s, "sizes differ by at most one", z3.ForAll([i], z3.Implies(rng(i, n), z3.And(q <= ln(i), ln(i) <= q + 1))))
        hint(P, s, z3.ForAll([i], z3.Implies(rng(i, n), ln(i) == q + z3.If(i < N - q * n, 1, 0))))
        hint(P, s, z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, q)), el(i, j) == i * q + j)))
        hint(P, s, z3.ForAll([i], z3.Implies(rng(i, N - q * n), el(i, q) == q * n + i)))
        P.have(s, "islands hold solutions of the initial population", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, ln(i))), rng(el(i, j), N))))
        P.have(s, "no solution twice on an island", z3.ForAll([i, j, j2], z3.Implies(z3.And(rng(i, n), rng(j, ln(i)), rng(j2, ln(i)), el(i, j) == el(i, j2)), j == j2)))
        P.ensure(s, "no solution on two islands", z3.ForAll([i, j, i2, j2], z3.Implies(z3.And(rng(i, n), rng(i2, n), i < i2, rng(j, ln(i)), rng(j2, ln(i2))), el(i, j) != el(i2, j2))))
        t = P.eng.fresh_int("t")
        s.assume(rng(t, N))
        s.assume(z3.Implies(q > 0, z3.And(t == (t / q) * q + t % q, 0 <= t % q, t % q < q)))
        hint(P, s, z3.Implies(t < q * n, rng(t / q, n)))
        hint(P, s, z3.Implies(t < q * n, el(t / q, t % q) == t))
        hint(P, s, z3.Implies(t >= q * n, el(t - q * n, q) == t))
        P.ensure(s, "no solution is lost", z3.Exists([i, j], z3.And(rng(i, n), rng(j, ln(i)), el(i, j) == t)))


VID, VAL = z3.Function("VID", Vec, I), z3.Function("VAL", I, Vec)    # vectors numbered, to be counted


class Emigration:
    """N solutions of a driver, numbered by their places; a multiset of requested vectors that is contained in the
    multiset of theirs.  Ghost: how often a vector still is in a list of vectors; which solutions were removed, at
    which step; the place of the others."""

    def __init__(self, P, cls, field):
        self.P, self.cls, self.field = P, cls, field
        self.N, self.m = P.int("N", 0), P.int("requested", 0)
        self.VALUE, self.REQ = P.fn1("VALUE", I, Vec), P.fn1("REQUESTED", I, Vec)
        self.M, self.CI = P.fn1("COUNT_REQUESTED", I, I), P.fn1("COUNT_PREFIX", I, I, I)
        P.st.heap[("F", cls.name, field)] = FMap(lambda t: Seq.ofvec(self.VALUE(t)))
        P.st.heap[("F", cls.name, "PLACE")] = FMap(lambda t: t)
        P.st.heap[("F", cls.name, "GONE")] = FMap(lambda t: z3.BoolVal(False))
        P.st.heap[("F", cls.name, "STEP")] = FMap(lambda t: z3.IntVal(-1))
        P.st.heap[("F", cls.name, "AT")] = FMap(lambda t: z3.IntVal(-1))
        # individuals that are dictionaries are found by their contents
        self.dicts = cls.name.startswith("dict:")
        self.same = (lambda a, b: self.VALUE(a) == self.VALUE(b)) if self.dicts else (lambda a, b: a == b)
        self.count = Ghost(P, removed=0)
        v, t = z3.Const("v!v", Vec), z3.Int("t!v")
        P.fact(z3.ForAll([v], VAL(VID(v)) == v, patterns=[VID(v)]))
        P.fact(z3.ForAll([t], self.CI(0, t) == 0))
        k, x = P.int("k!l"), P.int("t!l")
        P.ensure(P.st, "lemma: counts grow (step)", z3.Implies(z3.And(self.CI(k + 1, x) == self.CI(k, x) + z3.If(VID(self.VALUE(k)) == x, 1, 0), self.CI(k + 1, x) <= self.CI(self.N, x)), self.CI(k, x) <= self.CI(self.N, x)))
        j = z3.Int("j!v")
        P.fact(z3.ForAll([j, t], z3.Implies(z3.And(0 <= j, j <= self.N), self.CI(j, t) <= self.CI(self.N, t)), patterns=[self.CI(j, t)]))
        P.fact(z3.ForAll([t], z3.And(self.M(t) >= 0, self.M(t) <= self.CI(self.N, t))))
        self.reqs = Seq(self.m, lambda i: Seq.ofvec(self.REQ(toz(i))))
        self.counted(P.st, self.reqs, self.M)
        self.inds = P.lst(Seq(self.N, lambda i: SymObj(cls, toz(i))))
        self.addr = self.inds.addr
        P.eng.loop_inv, P.eng.inv_for = self.cands, True
        P.eng.on_remove = self.removed
        P.eng.merge_ok = False
        P.inv_timeout(800)

    def counted(self, st, sq, C, r=None):
        """definition of a count: a vector occurs (at another place than r) iff its count is positive; -> places"""
        i, t = z3.Int("i!k"), z3.Int("t!k")
        n, el = toz(sq.n), lambda i: SEQV(sq.get(i))
        w = self.P.eng.fresh_fun("occurs", 1, I)
        other = (lambda i: z3.BoolVal(True)) if r is None else (lambda i: i != r)
        st.facts.append(z3.ForAll([i], z3.Implies(z3.And(rng(i, n), other(i)), C(VID(el(i))) > 0), patterns=[el(i)]))
        st.facts.append(z3.ForAll([t], z3.Implies(C(t) > 0, z3.And(rng(w(t), n), other(w(t)), VID(el(w(t))) == t)), patterns=[C(t)]))
        st.facts.append(z3.ForAll([t], C(t) >= 0, patterns=[C(t)]))
        return w if r is None else lambda t: z3.If(w(t) < r, w(t), w(t) - 1)

    def bag(self, st, addr, make=False):
        key = ("F", "bag", addr)
        if key not in st.heap:
            if not make:
                return None
            sq = st.heap[addr].seq
            if sq.is_lit:
                return None
            C = self.M if sq.get is self.reqs.get else self.P.eng.fresh_fun("count", 1, I)
            w = self.counted(st, sq, C)
            st.heap[key] = FMap(lambda t: C(t))
            st.heap[("F", "place in bag", addr)] = FMap(lambda t: w(t))
        return st.heap[key]

    def ghost(self, s, f, t):
        return s.heap[("F", self.cls.name, f)].get(t)

    def removed(self, st, addr, index, v):
        r = toz(index)
        if addr == self.addr:
            h = {f: st.heap[("F", self.cls.name, f)] for f in ("PLACE", "GONE", "STEP")}
            x, k = v.term, toz(self.count.get(st, "removed"))
            st.heap[("F", self.cls.name, "PLACE")] = FMap(lambda t: z3.If(h["PLACE"].get(t) > r, h["PLACE"].get(t) - 1, h["PLACE"].get(t)))
            st.heap[("F", self.cls.name, "GONE")] = FMap(lambda t: z3.Or(t == x, h["GONE"].get(t)))
            st.heap[("F", self.cls.name, "STEP")] = FMap(lambda t: z3.If(t == x, k, h["STEP"].get(t)))
            at = st.heap[("F", self.cls.name, "AT")]
            st.heap[("F", self.cls.name, "AT")] = FMap(lambda t: z3.If(t == k, x, at.get(t)))
            self.count.set(st, "removed", k + 1)
        elif self.bag(st, addr) is not None:
            old, sq = self.bag(st, addr), st.heap[addr].seq
            x = VID(SEQV(v))
            C, t = self.P.eng.fresh_fun("count", 1, I), z3.Int("t!r")
            st.facts.append(z3.ForAll([t], C(t) == old.get(t) - z3.If(t == x, 1, 0), patterns=[C(t)]))
            st.heap[("F", "bag", addr)] = FMap(lambda t: C(t))
            w = self.counted(st, sq, C, r)
            st.heap[("F", "place in bag", addr)] = FMap(lambda t: w(t))

    def elems(self, s, v):
        sq = self.P.seq(v, s)

        def el(i):
            if sq.is_lit and sq.n == 0:
                return z3.IntVal(-1)
            x = sq.get(i)
            if not isinstance(x, SymObj):
                raise Unsupported("list of something else")
            return x.term
        return toz(sq.n), el

    def cands(self, eng, st):
        P, N, m = self.P, self.N, self.m
        i, j, t = z3.Ints("i!c j!c t!c")
        over = eng.loop_seq
        walk = over is not None and not (over.is_lit and over.n == 0)
        out = []
        vecs, objs = [], []
        for n, v in st.frames[st.cur].items():
            if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)):
                sq = st.heap[v.addr].seq
                if not sq.is_lit and isinstance(sq.get(z3.Int("i?")), Seq):
                    vecs.append((n, v))
                    self.bag(st, v.addr, make=True)
                else:
                    objs.append((n, v))
        for n, v in vecs:
            R = lambda s, t, a=v.addr: self.bag(s, a).get(t)
            W = lambda s, t, a=v.addr: s.heap[("F", "place in bag", a)].get(t)
            L = lambda s, a=v.addr: toz(s.heap[a].seq.n)
            E = lambda s, i, a=v.addr: VID(SEQV(s.heap[a].seq.get(i)))
            out += [lambda s, k, R=R, L=L, E=E: z3.ForAll([i], z3.Implies(rng(i, L(s)), R(s, E(s, i)) > 0)),
                    lambda s, k, R=R: z3.ForAll([t], R(s, t) >= 0),
                    lambda s, k, R=R, L=L, E=E, W=W: z3.ForAll([t], z3.Implies(R(s, t) > 0, z3.And(rng(W(s, t), L(s)), E(s, W(s, t)) == t))),
                    lambda s, k, R=R: self.step(s, k) or z3.ForAll([t], R(s, t) <= self.CI(N, t) - self.CI(k, t))]
            for n2, v2 in objs:
                out.append(lambda s, k, L=L, a=v2.addr: toz(s.heap[a].seq.n) + L(s) == m)
        for n, v in objs:
            T = lambda s, a=v: self.elems(s, a)
            out += [lambda s, k, T=T: z3.ForAll([i], z3.Implies(rng(i, T(s)[0]), rng(T(s)[1](i), k))),
                    lambda s, k, T=T: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, T(s)[0]), rng(j, T(s)[0]), i < j), T(s)[1](i) < T(s)[1](j)))]
        I0 = lambda s: self.elems(s, self.inds)
        out += [lambda s, k: toz(self.count.get(s, "removed")) == k, lambda s, k: I0(s)[0] == N - k,
                lambda s, k: z3.ForAll([j], z3.Implies(rng(j, N), z3.Or(self.ghost(s, "GONE", j), z3.And(rng(self.ghost(s, "PLACE", j), I0(s)[0]), I0(s)[1](self.ghost(s, "PLACE", j)) == j)))),
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, I0(s)[0]), z3.And(rng(I0(s)[1](i), N), z3.Not(self.ghost(s, "GONE", I0(s)[1](i))), self.ghost(s, "PLACE", I0(s)[1](i)) == i)))]
        if walk and isinstance(over.get(z3.Int("i?")), SymObj):
            el, on = (lambda i: over.get(i).term), toz(over.n)
            G = lambda s, f, t: self.ghost(s, f, t)
            out += [lambda s, k: z3.ForAll([j], z3.Implies(rng(j, N), G(s, "GONE", j) == z3.And(rng(G(s, "STEP", j), k), G(s, "AT", G(s, "STEP", j)) == j))),
                    lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), z3.And(rng(G(s, "AT", i), N), G(s, "GONE", G(s, "AT", i)), G(s, "STEP", G(s, "AT", i)) == i, self.same(el(i), G(s, "AT", i)), G(s, "AT", i) <= el(i)))),
                    lambda s, k: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, I0(s)[0]), rng(j, I0(s)[0]), i < j), I0(s)[1](i) < I0(s)[1](j))),
                    lambda s, k: z3.ForAll([i], z3.Implies(z3.And(rng(i, on), i >= k), z3.And(z3.Not(G(s, "GONE", el(i))), rng(G(s, "PLACE", el(i)), I0(s)[0]), I0(s)[1](G(s, "PLACE", el(i))) == el(i))))]
        return out

    def step(self, s, k):
        """definition of the count, at place k"""
        t, k = z3.Int("t!s"), toz(k)
        s.facts.append(z3.ForAll([t], z3.Implies(k > 0, self.CI(k, t) == self.CI(z3.simplify(k - 1), t) + z3.If(VID(self.VALUE(z3.simplify(k - 1))) == t, 1, 0)), patterns=[self.CI(k, t)]))

    def post(self, s, v):
        P, N = self.P, self.N
        i, j, t = z3.Ints("i!p j!p t!p")
        n, el = self.elems(s, v)
        P.have(s, "as many solutions leave as are asked for", n == self.m)
        r, left = self.elems(s, fld(P, self.driver, "individuals", s))
        P.have(s, "the others stay", r == N - self.m)
        P.have(s, "who leaves was a member", z3.ForAll([i], z3.Implies(rng(i, n), rng(el(i), N))))
        P.have(s, "who stays was a member", z3.ForAll([i], z3.Implies(rng(i, r), rng(left(i), N))))
        P.have(s, "nobody leaves twice", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), i != j), el(i) != el(j))))
        P.have(s, "nobody stays twice", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, r), rng(j, r), i != j), left(i) != left(j))))
        if not self.dicts:
            P.ensure(s, "nobody both leaves and stays", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, r)), el(i) != left(j))))
        # of equal dictionaries any may be taken out: the removed ones match those who leave, one to one, by value
        G = lambda f, t: self.ghost(s, f, t)
        P.ensure(s, "a former member stays, or is matched by one who leaves", z3.ForAll([t], z3.Implies(rng(t, N), z3.If(G("GONE", t),
            z3.And(rng(G("STEP", t), n), self.same(el(G("STEP", t)), t)), z3.And(rng(G("PLACE", t), r), left(G("PLACE", t)) == t)))))
        P.ensure(s, "each who leaves matches one removed", z3.ForAll([i], z3.Implies(rng(i, n), z3.And(rng(G("AT", i), N), G("GONE", G("AT", i)), G("STEP", G("AT", i)) == i))))
        P.ensure(s, "nobody removed stays", z3.ForAll([j], z3.Implies(rng(j, r), z3.Not(G("GONE", left(j))))))
        P.ensure(s, "no two of those removed match the same one", z3.ForAll([i, j], z3.Implies(z3.And(rng(i, N), rng(j, N), G("GONE", i), G("GONE", j), i != j), G("STEP", i) != G("STEP", j))))


def emigration(P, adapter, cls, field):
    w = Emigration(P, cls, field)
    w.driver = P.obj(ClassVal("driver", None, [], {}, None), {"individuals": w.inds})
    o = P.obj(adapter, {"driver": w.driver})
    for s, v in P.call(P.method(o, "emigrate"), [o, P.lst(w.reqs)]):
        w.post(s, v)


@proof("C11", "emigrants of the default adapter: requested, distinct, taken out", "algorithms.IMGA.message:DefaultIMGAMessageAdapter.emigrate")
def emi_default(P):
    emigration(P, "algorithms.IMGA.message:DefaultIMGAMessageAdapter", ClassVal("individual", None, [], {}, None), "v")


@proof("C11", "emigrants of SMS-EMOA: requested, distinct, taken out", "algorithms.SMSEMOA.message:SMSEMOAIMGAMessageAdapter.emigrate")
def emi_sms(P):
    emigration(P, "algorithms.SMSEMOA.message:SMSEMOAIMGAMessageAdapter", ClassVal("individual", None, [], {}, None), "value")


@proof("C11", "emigrants of OMOPSO: requested, distinct, taken out", "algorithms.OMOPSO.message:OMOPSOIMGAMessageAdapter.emigrate")
def emi_omopso(P):
    emigration(P, "algorithms.OMOPSO.message:OMOPSOIMGAMessageAdapter", ClassVal("individual", None, [], {}, None), "value")


@proof("C11", "emigrants of SPEA2: requested, distinct, taken out", "algorithms.SPEA2.message:SPEA2IMGAMessageAdapter.emigrate")
def emi_spea2(P):
    emigration(P, "algorithms.SPEA2.message:SPEA2IMGAMessageAdapter", ClassVal("dict:individual", None, [], {}, None), "value")


PR, FST, SND = z3.Function("PAIR", I, I, I), z3.Function("FIRST", I, I), z3.Function("SECOND", I, I)


@proof("C11", "migration: every island sends one batch along each of its links, then all take theirs in", IM + "IMGA.migration")
def migration(P):
    N, D, T = P.int("ISLANDS", 0), P.fn1("DEGREE", I, I), P.fn1("NEIGHBOUR", I, I, I)
    i, b, a = z3.Ints("i!m b!m a!m")
    P.fact(z3.ForAll([i, b], z3.Implies(z3.And(rng(i, N), rng(b, D(i))), rng(T(i, b), N)), patterns=[T(i, b)]))
    P.fact(z3.ForAll([i], D(i) >= 0, patterns=[D(i)]))
    P.fact(z3.ForAll([a, b], z3.And(FST(PR(a, b)) == a, SND(PR(a, b)) == b), patterns=[PR(a, b)]))
    cls = P.get(IM + "IMGA").lookup("Island")[0]
    F = lambda f, s: s.heap[("F", "GHOST", f)]
    for f, v in (("sent", 0), ("taken", 0), ("delivered", -1)):
        P.st.heap[("F", "GHOST", f)] = FMap(lambda t, v=v: z3.IntVal(v))

    def up(st, f, key, v):
        h = F(f, st)
        st.heap[("F", "GHOST", f)] = FMap(lambda t: z3.If(t == key, v, h.get(t)))

    def early(st, what):
        P.ensure(st, what + " before any island takes its migrants in", z3.ForAll([i], F("taken", st).get(i) == 0))

    def emigrate(e, st, v, kw, node):
        """contract of Island.emigrate (proved below): a batch of its solutions, numbered"""
        x = v[0].term
        early(st, "migrants leave")
        n = e.fresh_int("batch")
        st.assume(n == F("sent", st).get(x))
        up(st, "sent", x, n + 1)
        return [(st, Tok(PR(x, n)))]

    def immigrate(e, st, v, kw, node):
        if not isinstance(v[1], Tok):
            raise Unsupported("migrants of unknown origin")
        early(st, "migrants arrive")
        P.ensure(st, "a batch is delivered once", F("delivered", st).get(v[1].t) == -1)
        up(st, "delivered", v[1].t, v[0].term)
        return [(st, None)]

    def assimilate(e, st, v, kw, node):
        x = v[0].term
        up(st, "taken", x, F("taken", st).get(x) + 1)
        return [(st, None)]
    for nm, h in (("emigrate", emigrate), ("immigrate", immigrate), ("assimilate", assimilate)):
        P.eng.contracts[IM + "IMGA.Island." + nm] = h
        P.eng.contracts[IM + "Island." + nm] = h
    done = lambda s, i: z3.ForAll([b], z3.Implies(rng(b, D(i)), F("delivered", s).get(PR(i, b)) == T(i, b)))

    def cands(eng, st):
        out = [lambda s, k: z3.ForAll([i], F("taken", s).get(i) == 0),
               lambda s, k: z3.ForAll([i], F("taken", s).get(i) == z3.If(rng(i, k), 1, 0))]
        up_ = [e for e in eng.inv_stack if e is not None]
        ks = ([lambda s, k: k], [lambda s, k, o=up_[-1][2]: o] if up_ and up_[-1][2] is not None else [])
        for K in ks[0]:
            out += [lambda s, k: z3.ForAll([i], z3.Implies(rng(i, N), F("sent", s).get(i) == z3.If(i < k, D(i), 0))),
                    lambda s, k: z3.ForAll([i, b], z3.Implies(z3.And(rng(i, N), i < k, rng(b, D(i))), F("delivered", s).get(PR(i, b)) == T(i, b))),
                    lambda s, k: z3.ForAll([a], z3.Implies(z3.Or(FST(a) >= k), F("delivered", s).get(a) == -1))]
        for K in ks[1]:
            o = lambda s, k, K=K: toz(K(s, k))
            out += [lambda s, k, o=o: z3.ForAll([i], z3.Implies(rng(i, N), F("sent", s).get(i) == z3.If(i < o(s, k), D(i), z3.If(i == o(s, k), k, 0)))),
                    lambda s, k, o=o: z3.ForAll([i, b], z3.Implies(z3.And(rng(i, N), z3.Or(i < o(s, k), z3.And(i == o(s, k), b < k)), rng(b, D(i))), F("delivered", s).get(PR(i, b)) == T(i, b))),
                    lambda s, k, o=o: z3.ForAll([a], z3.Implies(z3.Or(FST(a) > o(s, k), z3.And(FST(a) == o(s, k), SND(a) >= k)), F("delivered", s).get(a) == -1))]
        out += [lambda s, k: z3.ForAll([i], z3.Implies(rng(i, N), F("sent", s).get(i) == D(i))),
                lambda s, k: z3.ForAll([i, b], z3.Implies(z3.And(rng(i, N), rng(b, D(i))), F("delivered", s).get(PR(i, b)) == T(i, b)))]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    P.inv_timeout(800)
    topo = Seq(N, lambda x: Seq(D(toz(x)), lambda j: T(toz(x), toz(j))))
    o = P.obj(IM + "IMGA", dict(islands=P.lst(Seq(N, lambda x: SymObj(cls, toz(x)))), topology=P.lst(topo)))
    for s, v in P.call(P.method(o, "migration"), [o]):
        P.ensure(s, "an island sends as many batches as it has links", z3.ForAll([i], z3.Implies(rng(i, N), F("sent", s).get(i) == D(i))))
        P.ensure(s, "the batches go to the linked islands, one to each", z3.ForAll([i, b], z3.Implies(z3.And(rng(i, N), rng(b, D(i))), F("delivered", s).get(PR(i, b)) == T(i, b))))
        P.ensure(s, "every island takes its migrants in once", z3.ForAll([i], z3.Implies(rng(i, N), F("taken", s).get(i) == 1)))


ISLAND = IM + "IMGA.Island"
VECT = ClassVal("dict:vector", None, [], {}, None)     # a vector of a population: equal vectors at different places are told apart


def island_obj(P, **fields):
    cls = P.get(IM + "IMGA").lookup("Island")[0]
    return P.obj(cls, fields)


@proof("C11", "an island is built on the solutions it is given, with the parameters of the model", ISLAND + ".__init__")
def island_init(P):
    names = ["dims", "fitnesses", "mutation_rate", "mutation_eta", "crossover_rate", "crossover_eta"]
    given = {n: Tok(P.int("given_" + n)) for n in names}
    given["driver_message_adapter_factory"] = Tok(P.int("given_adapter"))
    calls = []

    def driver(e, st, a, kw, node):
        calls.append((a, kw))
        return [(st, Tok(P.int("driver made")))]
    P.eng.contracts["lib:spec.driver"] = driver
    outer = P.obj(ClassVal("model", None, [], {}, None), dict(given, driver=Builtin("spec.driver")))
    pop = P.lst(Seq(P.int("M", 0), lambda i: SymObj(SOL, toz(i))))
    o = island_obj(P)
    for s, v in P.call(P.method(o, "__init__"), [o, outer, pop]):
        P.ensure(s, "one driver is built", len(calls) == 1)
        a, kw = calls[0]
        P.ensure(s, "named parameters only", len(a) == 0)
        P.ensure(s, "the driver gets the island's solutions", kw.get("population") == pop)
        for n in names:
            P.ensure(s, "the driver gets the model's %s" % n, isinstance(kw.get(n), Tok) and kw[n].t == given[n].t)
        P.ensure(s, "the driver gets the message adapter", isinstance(kw.get("message_adapter_factory"), Tok) and kw["message_adapter_factory"].t == given["driver_message_adapter_factory"].t)
        P.ensure(s, "the island keeps its driver", fld(P, o, "driver", s).t == P.int("driver made"))
        P.ensure(s, "nobody waits at the start", z3.And(toz(P.seq(fld(P, o, "visa_office", s), s).n) == 0, toz(P.seq(fld(P, o, "all_refugees", s), s).n) == 0))
        P.ensure(s, "the waiting lists are two lists", fld(P, o, "visa_office", s).addr != fld(P, o, "all_refugees", s).addr)


@proof("C11", "an island's emigrants: drawn from its solutions, each at most once, as many as asked for", ISLAND + ".emigrate")
def island_emigrate(P):
    N, m = P.int("N", 0), P.int("migrants", 0)
    P.assume(m <= N)
    VALUE = P.fn1("VALUE", I, Vec)
    P.st.heap[("F", VECT.name, "value")] = FMap(lambda t: Seq.ofvec(VALUE(t)))
    for f, v in (("PLACE", lambda t: t), ("GONE", lambda t: z3.BoolVal(False)), ("AT", lambda t: z3.IntVal(-1)), ("STEP", lambda t: z3.IntVal(-1))):
        P.st.heap[("F", "GHOST", f)] = FMap(v)
    count = Ghost(P, removed=0)
    G = lambda s, f, t: s.heap[("F", "GHOST", f)].get(t)
    pop = P.lst(Seq(N, lambda i: SymObj(VECT, toz(i))))
    i, j = z3.Ints("i!e j!e")

    def removed(st, addr, index, v):
        if addr != pop.addr:
            return
        r, x, k = toz(index), v.term, toz(count.get(st, "removed"))
        h = {f: st.heap[("F", "GHOST", f)] for f in ("PLACE", "GONE", "AT", "STEP")}
        put = lambda f, g: st.heap.__setitem__(("F", "GHOST", f), FMap(g))
        put("PLACE", lambda t: z3.If(h["PLACE"].get(t) > r, h["PLACE"].get(t) - 1, h["PLACE"].get(t)))
        put("GONE", lambda t: z3.Or(t == x, h["GONE"].get(t)))
        put("AT", lambda t: z3.If(t == k, x, h["AT"].get(t)))
        put("STEP", lambda t: z3.If(t == x, k, h["STEP"].get(t)))
        count.set(st, "removed", k + 1)
    P.eng.on_remove = removed
    P.eng.merge_ok = False

    def layers(e, st, a, kw, node):
        """contract of paretofront_layers: non-empty layers of the given solutions, at least one if there are any"""
        sq = e.seq_of(a[0], st)
        P.ensure(st, "the layers are taken over the solutions that are left", z3.And(toz(sq.n) == toz(P.seq(pop, st).n)))
        K, LN, IX = e.fresh_int("layers"), e.fresh_fun("size", 1, I), e.fresh_fun("index", 2, I)
        st.assume(z3.And(K >= 0, z3.Implies(toz(sq.n) > 0, K >= 1)))
        st.facts.append(z3.ForAll([i], LN(i) >= 1, patterns=[LN(i)]))
        st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, K), rng(j, LN(i))), rng(IX(i, j), sq.n)), patterns=[IX(i, j)]))
        return [(st, e.new_list(st, Seq(K, lambda l: Seq(LN(toz(l)), lambda q: sq.get(IX(toz(l), toz(q)))))))]
    P.eng.contracts["evotools.ea_utils:paretofront_layers"] = layers

    def choice(e, st, a, kw, node):
        """contract of weighted_choice (proved above): an element, of positive weight"""
        sq = e.seq_of(a[0], st)
        P.have(st, "a choice is made among some", toz(sq.n) >= 1)
        P.ensure(st, "weights are positive", z3.ForAll([i], z3.Implies(rng(i, sq.n), R(sq.get(i)[1]) > 0)))
        r = e.fresh_int("chosen")
        st.assume(rng(r, sq.n))
        return [(st, sq.get(r)[0])]
    P.eng.contracts["evotools.random_tools:weighted_choice"] = choice
    sent = []

    def emigrate(s, a):
        sent.append((s, P.seq(a[0], s)))
        return Tok(P.int("what the adapter returns"))

    def elems(s, v):
        sq = P.seq(v, s)
        return toz(sq.n), lambda i: z3.IntVal(-1) if sq.is_lit and not sq.n else sq.get(i).term

    def cands(eng, st):
        out = []
        for nm, v in st.frames[st.cur].items():
            if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)) and v.addr != pop.addr:
                T = lambda s, v=v: elems(s, v)
                out += [lambda s, k, T=T: T(s)[0] == k,
                        lambda s, k, T=T: z3.ForAll([i], z3.Implies(rng(i, k), z3.And(rng(T(s)[1](i), N), VALUE(T(s)[1](i)) == VALUE(G(s, "AT", i)))))]
        L = lambda s: elems(s, pop)
        out += [lambda s, k: toz(count.get(s, "removed")) == k, lambda s, k: L(s)[0] == N - k,
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), z3.And(rng(G(s, "AT", i), N), G(s, "STEP", G(s, "AT", i)) == i, G(s, "GONE", G(s, "AT", i))))),
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, L(s)[0]), z3.And(rng(L(s)[1](i), N), z3.Not(G(s, "GONE", L(s)[1](i))), G(s, "PLACE", L(s)[1](i)) == i)))]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    P.inv_timeout(800)
    drv = P.obj(ClassVal("driver", None, [], {}, None), dict(population=pop, message_adapter=SpecObj({"emigrate": METHOD(emigrate)})))
    n0 = P.int("earlier refugees", 0)
    refs = P.lst(Seq(n0, lambda i: SymObj(VECT, toz(i))))
    outer = P.obj(ClassVal("model", None, [], {}, None), dict(migrants_number=m, fitnesses=Opaque("fitnesses")))
    o = island_obj(P, outer=outer, driver=drv, all_refugees=refs)
    for s, v in P.call(P.method(o, "emigrate"), [o]):
        P.ensure(s, "the adapter takes the emigrants out once", len(sent) == 1)
        st, sq = sent[-1]
        P.have(s, "as many emigrants as asked for", toz(sq.n) == m)
        P.ensure(s, "the emigrants match different solutions of the island", z3.ForAll([i], z3.Implies(rng(i, m), z3.And(
            rng(G(s, "AT", i), N), VALUE(sq.get(i).term) == VALUE(G(s, "AT", i)), G(s, "STEP", G(s, "AT", i)) == i))))
        P.ensure(s, "what the adapter returned is sent", isinstance(v, Tok) and v.t == P.int("what the adapter returns"))
        P.ensure(s, "the refugees are remembered", toz(P.seq(fld(P, o, "all_refugees", s), s).n) == n0 + m)


@proof("C11", "arriving migrants wait at the visa office", ISLAND + ".immigrate")
def island_immigrate(P):
    n, k = P.int("waiting", 0), P.int("arriving", 0)
    A, B_ = P.fn1("WAITING", I, I), P.fn1("ARRIVING", I, I)
    office = P.lst(Seq(n, lambda i: SymObj(SOL, A(toz(i)))))
    o = island_obj(P, visa_office=office)
    i = z3.Int("i!w")
    for s, v in P.call(P.method(o, "immigrate"), [o, P.lst(Seq(k, lambda i: SymObj(SOL, B_(toz(i)))))]):
        sq = P.seq(fld(P, o, "visa_office", s), s)
        P.ensure(s, "everyone waits", toz(sq.n) == n + k)
        P.ensure(s, "those who waited still do, the new ones after them", z3.ForAll([i], z3.Implies(rng(i, n + k), sq.get(i).term == z3.If(i < n, A(i), B_(i - n)))))


@proof("C11", "the migrants are taken in, all and once, if they are as many as left", ISLAND + ".assimilate")
def island_assimilate(P):
    n, k = P.int("waiting", 0), P.int("refugees", 0)
    A = P.fn1("WAITING", I, I)
    office, refs = P.lst(Seq(n, lambda i: SymObj(SOL, A(toz(i))))), P.lst(Seq(k, lambda i: SymObj(SOL, toz(i))))
    got = []
    i = z3.Int("i!w")

    def immigrate(s, a):
        got.append(1)
        sq = P.seq(a[0], s)
        P.ensure(s, "all who wait are taken in", z3.And(toz(sq.n) == n, z3.ForAll([i], z3.Implies(rng(i, n), sq.get(i).term == A(i)))))
        P.ensure(s, "as many come as left", n == k)
    drv = P.obj(ClassVal("driver", None, [], {}, None), dict(message_adapter=SpecObj({"immigrate": METHOD(immigrate)}), population=P.lst(Seq(P.int("POP", 0), lambda i: SymObj(SOL, toz(i))))))
    o = island_obj(P, visa_office=office, all_refugees=refs, driver=drv)
    P.assume(n == k)
    for s, v in P.call(P.method(o, "assimilate"), [o]):
        P.ensure(s, "they are taken in once", len(got) == 1)
        P.ensure(s, "nobody waits any more", toz(P.seq(fld(P, o, "visa_office", s), s).n) == 0)
        P.ensure(s, "the refugees are forgotten", toz(P.seq(fld(P, o, "all_refugees", s), s).n) == 0)


def taking_in(P, adapter, cls=SOL, resets=False):
    n, k = P.int("members", 0), P.int("migrants", 0)
    A, B_ = P.fn1("MEMBER", I, I), P.fn1("MIGRANT", I, I)
    inds = P.lst(Seq(n, lambda i: SymObj(cls, A(toz(i)))))
    migrants = P.lst(Seq(k, lambda i: SymObj(cls, B_(toz(i)))))
    drv = P.obj(ClassVal("driver", None, [], {}, None), {"individuals": inds})
    o = P.obj(adapter, {"driver": drv})
    i = z3.Int("i!t")
    P.st.heap[("F", cls.name, "RESETS")] = FMap(lambda t: z3.BoolVal(False))
    R_ = lambda s, t: s.heap[("F", cls.name, "RESETS")].get(t)
    if resets:
        def reset(e, st, a, kw, node):
            h = st.heap[("F", cls.name, "RESETS")]
            st.heap[("F", cls.name, "RESETS")] = FMap(lambda t: z3.Or(t == a[0].term, h.get(t)))
            return [(st, None)]
        P.eng.contracts["algorithms.OMOPSO.OMOPSO:Individual.reset_speed"] = reset

    def cands(eng, st):
        L = lambda s: P.seq(inds, s)
        return [lambda s, k: toz(L(s).n) == n + k,
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, n), L(s).get(i).term == A(i))),
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), L(s).get(n + i).term == B_(i))),
                lambda s, k: z3.ForAll([i], z3.Implies(rng(i, k), R_(s, B_(i))))]
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, v in P.call(P.method(o, "immigrate"), [o, migrants]):
        P.ensure(s, "the members are kept in the driver's own list", fld(P, drv, "individuals", s).addr == inds.addr)
        sq = P.seq(inds, s)
        P.ensure(s, "all migrants become members", toz(sq.n) == n + k)
        P.ensure(s, "the former members stay", z3.ForAll([i], z3.Implies(rng(i, n), sq.get(i).term == A(i))))
        P.ensure(s, "each migrant once", z3.ForAll([i], z3.Implies(rng(i, k), sq.get(n + i).term == B_(i))))
        P.ensure(s, "the migrants' list stays as it is", z3.And(toz(P.seq(migrants, s).n) == k))
        if resets:
            P.ensure(s, "the speed of every migrant is reset", z3.ForAll([i], z3.Implies(rng(i, k), R_(s, B_(i)))))


@proof("C11", "default adapter: migrants become members", "algorithms.IMGA.message:DefaultIMGAMessageAdapter.immigrate")
def imm_default(P):
    taking_in(P, "algorithms.IMGA.message:DefaultIMGAMessageAdapter")


@proof("C11", "SPEA2: migrants become members", "algorithms.SPEA2.message:SPEA2IMGAMessageAdapter.immigrate")
def imm_spea2(P):
    taking_in(P, "algorithms.SPEA2.message:SPEA2IMGAMessageAdapter")


@proof("C11", "SMS-EMOA: migrants become members", "algorithms.SMSEMOA.message:SMSEMOAIMGAMessageAdapter.immigrate")
def imm_sms(P):
    taking_in(P, "algorithms.SMSEMOA.message:SMSEMOAIMGAMessageAdapter")


@proof("C11", "OMOPSO: migrants become members", "algorithms.OMOPSO.message:OMOPSOIMGAMessageAdapter.immigrate")
def imm_omopso(P):
    taking_in(P, "algorithms.OMOPSO.message:OMOPSOIMGAMessageAdapter", P.get("algorithms.OMOPSO.OMOPSO:Individual"), resets=True)


@proof("C11", "the cost of the model is what its islands spent together", IM + "IMGA.update_cost")
def island_cost(P):
    n, C = P.int("ISLANDS", 0), P.fn1("COST", I, Rl)
    RES = ClassVal("result", None, [], {}, None)
    P.st.heap[("F", "result", "cost")] = FMap(lambda t: C(t))
    o = P.obj(IM + "IMGA", {"cost": P.real("old")})
    for s, v in P.call(P.method(o, "update_cost"), [o, P.lst(Seq(n, lambda i: SymObj(RES, toz(i))))]):
        P.ensure(s, "sum of the islands' costs", R(fld(P, o, "cost", s)) == SUM(P, n, lambda k: C(toz(k))))
