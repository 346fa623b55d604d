from .lib import *
from pydv import symmap
from pydv.symmap import CellAddr

I, B = z3.IntSort(), z3.BoolSort()
IND = ClassVal("individual", None, [], {}, None)
DCNT = z3.Function("DCNT", I, I, I)      # DCNT(n, a): how many of the first n individuals dominate a


def rng(x, n):
    return z3.And(0 <= x, x < n)


class Sorting:
    """any number N of individuals (numbered 0..N-1) under an arbitrary strict partial order; the front and the place
    in it that an individual was appended to, and the individual of the front before that released it, are ghost
    state (fields PL, POS, WIT)"""

    def __init__(self, P, dom):
        self.P, self.e = P, P.eng
        self.N = P.int("N", 0)
        self.dom = dom
        self.inds = P.lst(Seq(self.N, lambda i: SymObj(IND, toz(i))))
        for f in ("PL", "POS", "WIT"):
            P.st.heap[("F", "individual", f)] = FMap(lambda t: z3.IntVal(0))
        a, b, c, n = z3.Ints("a! b! c! n!")
        D = dom
        P.fact(z3.ForAll([a], z3.Not(D(a, a)), patterns=[D(a, a)]))
        P.fact(z3.ForAll([a, b, c], z3.Implies(z3.And(D(a, b), D(b, c)), D(a, c)), patterns=[z3.MultiPattern(D(a, b), D(b, c))]))
        P.fact(z3.ForAll([a], DCNT(0, a) == 0, patterns=[DCNT(0, a)]))
        P.fact(z3.ForAll([n, a], z3.Implies(n >= 0, DCNT(n + 1, a) == DCNT(n, a) + z3.If(D(n, a), 1, 0)), patterns=[DCNT(n + 1, a)]))
        self.heads = {}
        self.D0 = (lambda y: DCNT(self.N, y), lambda j, y: D(j, y))
        P.st.facts += self.zero(*self.D0)
        e = self.e
        e.on_append = self.on_append
        e.loop_inv, e.inv_for = self.cands, True
        P.inv_timeout(800)

    # ---- ghost state
    def g(self, s, f, t):
        return s.heap[("F", "individual", f)].get(t)

    def on_append(self, st, addr, v):
        if not isinstance(addr, CellAddr) or not isinstance(v, SymObj) or v.cls is not IND:
            return
        m = symmap.smap(st.heap[addr.addr])
        if m.kc != "int" or m.vk != "list":
            return
        self.e.setattr(st, v, "PL", addr.t)
        self.e.setattr(st, v, "POS", toz(m.get(addr.t).n))
        loops = [x for x in self.e.inv_stack if x is not None and x[1] is not None and x[2] is not None]
        if len(loops) >= 2:
            w = loops[-2][1].get(loops[-2][2])
            if isinstance(w, SymObj):
                self.e.setattr(st, v, "WIT", w.term)

    # ---- instances of the counting lemmas (proved below)
    def zero(self, U, e):
        y, j = z3.Ints("y!z j!z")
        sk = self.e.fresh_fun("cw", 1, I)
        return [z3.ForAll([y], U(y) >= 0, patterns=[U(y)]),
                z3.ForAll([y, j], z3.Implies(z3.And(rng(j, self.N), e(j, y)), U(y) >= 1), patterns=[z3.MultiPattern(U(y), self.dom(j, y))]),
                z3.ForAll([y], z3.Or(U(y) == 0, z3.And(rng(sk(y), self.N), e(sk(y), y))), patterns=[U(y)])]

    def point(self, U1, e1, U2, e2, p):
        y = z3.Int("y!p")
        d = self.e.fresh_fun("cd", 1, I)
        b = lambda c: z3.If(c, 1, 0)
        ch = z3.IntVal(0) if p is None else z3.If(rng(p, self.N), b(e2(p, y)) - b(e1(p, y)), 0)
        same = z3.Or(z3.Not(rng(d(y), self.N)), z3.BoolVal(False) if p is None else d(y) == p, e1(d(y), y) == e2(d(y), y))
        return z3.ForAll([y], z3.Or(z3.Not(same), U2(y) == U1(y) + ch), patterns=[U2(y)])

    def count(self, s, e, depth, links):
        """the number of j with e(j, y), as a function of y"""
        U = self.e.fresh_fun("CNT", 1, I)
        s.facts += self.zero(U, e)
        for (h, p) in links:
            if h is not None:
                s.facts.append(self.point(h[0], h[1], U, e, p))
        if self.e.inv_phase == "head":
            self.heads[depth] = (U, e)
        return U

    # ---- the maps of the function, by what they hold
    def maps(self, st, kind):
        out = []
        for v in list(st.frames[st.cur].values()):
            self._add(st, v, kind, out)
        for o in list(st.heap.values()):
            if isinstance(o, HeapObj):
                for v in o.fields.values():
                    self._add(st, v, kind, out)
        return out

    def _add(self, st, v, kind, out):
        if isinstance(v, DictRef) and v not in out and getattr(st.heap[v.addr].default, "name", None) == kind:
            out.append(v)

    def get(self, s, d, t):
        return symmap.tomap(s, d.addr).get(t)

    # ---- candidate invariants
    def cands(self, eng, st):
        N, D, g = self.N, self.dom, self.g
        stk = list(eng.inv_stack)       # the enclosing loops (the new one is not pushed yet)
        sq = eng.loop_seq
        whiles = [i for i, x in enumerate(stk) if x[1] is None]
        kinds = [x[1] for x in stk] + [sq]
        out = []
        a, b, i, t = z3.Ints("a!i b!i i!i t!i")
        hows, dbs, fronts = self.maps(st, "int"), self.maps(st, "set"), self.maps(st, "list")
        PL, POS, WIT = [lambda s, x, f=f: g(s, f, x) for f in ("PL", "POS", "WIT")]
        ln = lambda s, d, t: toz(self.get(s, d, t).n)

        def el(s, d, t, i):
            sq = self.get(s, d, t)
            if sq.is_lit and sq.n == 0:
                return z3.IntVal(-1)
            return sq.get(i).term
        fin = lambda f: z3.ForAll([a], z3.Implies(rng(a, N), f(a)))
        for d in fronts:
            out.append(lambda s, k, d=d: z3.ForAll([t, i], z3.Implies(rng(i, ln(s, d, t)), z3.And(rng(el(s, d, t, i), N), PL(s, el(s, d, t, i)) == t, POS(s, el(s, d, t, i)) == i))))
            out.append(lambda s, k, d=d: fin(lambda a: z3.Implies(PL(s, a) >= 1, z3.And(rng(POS(s, a), ln(s, d, PL(s, a))), el(s, d, PL(s, a), POS(s, a)) == a))))
        def tagged(role, h, c):
            c.tag = (role, h.addr)
            if c.tag not in eng.dropped_tags:
                out.append(c)
        for h in hows:      # the rank, where it is kept
            tagged("rank", h, lambda s, k, h=h: fin(lambda a: z3.Implies(PL(s, a) >= 1, self.get(s, h, a) == PL(s, a))))
        if all(q is not None for q in kinds):
            # first phase: counting
            kx = stk[0][2] if stk else None
            done = (lambda k, x: x < k) if kx is None else (lambda k, x: x < kx)
            cur = (lambda k, x: z3.BoolVal(False)) if kx is None else (lambda k, x: x == kx)
            for d in dbs:
                out.append(lambda s, k, d=d: z3.ForAll([a, b], z3.Implies(rng(a, N), toz(self.get(s, d, a).mem(b)) == z3.And(rng(b, N), D(a, b), z3.Or(done(k, a), z3.And(cur(k, a), b < k))))))
            for h in hows:
                tagged("count", h, lambda s, k, h=h: fin(lambda a: self.get(s, h, a) == z3.If(done(k, a), DCNT(N, a), z3.If(cur(k, a), DCNT(toz(k), a), 0))))
            if kx is None:
                out.append(lambda s, k: fin(lambda a: PL(s, a) == z3.If(z3.And(a < k, DCNT(N, a) == 0), 1, 0)))
                for d in fronts:
                    out.append(lambda s, k, d=d: z3.ForAll([t], z3.Implies(t != 1, ln(s, d, t) == 0)))
                    out.append(lambda s, k, d=d: z3.ForAll([t], z3.Implies(symmap.tomap(s, d.addr).has(t), t == 1)))
            return out
        # second phase: releasing front after front
        depth = len(kinds) - (whiles[0] if whiles else len(stk))
        for d in dbs:
            out.append(lambda s, k, d=d: z3.ForAll([a, b], z3.Implies(rng(a, N), toz(self.get(s, d, a).mem(b)) == z3.And(rng(b, N), D(a, b)))))
        out.append(lambda s, k: z3.ForAll([a, b], z3.Implies(z3.And(rng(a, N), rng(b, N), PL(s, a) >= 1, D(b, a)), z3.And(1 <= PL(s, b), PL(s, b) < PL(s, a)))))
        out.append(lambda s, k: fin(lambda a: z3.Implies(PL(s, a) > 1, z3.And(rng(WIT(s, a), N), D(WIT(s, a), a), PL(s, WIT(s, a)) == PL(s, a) - 1))))
        hows = [h for h in hows if ("count", h.addr) not in eng.dropped_tags]
        for h in hows:
            out.append(lambda s, k, h=h: fin(lambda a: (PL(s, a) >= 1) == (self.get(s, h, a) == 0)))
        k1 = stk[whiles[0] + 1][2] if depth == 3 else None
        x1 = stk[whiles[0] + 1][1].get(k1).term if depth == 3 else None
        ints = [n for n, v in st.frames[st.cur].items() if is_num(v) and is_int(v)]
        for n in ints:
            F = lambda s, n=n: toz(s.frames[st.cur][n])
            top = 0 if depth == 1 else 1
            out.append(lambda s, k, F=F: F(s) >= 1)
            out.append(lambda s, k, F=F, top=top: fin(lambda a: z3.And(0 <= PL(s, a), PL(s, a) <= F(s) + top)))
            for d in fronts:
                out.append(lambda s, k, F=F, d=d: z3.ForAll([t], z3.Implies(z3.And(1 <= t, t < F(s)), z3.And(symmap.tomap(s, d.addr).has(t), ln(s, d, t) >= 1))))
                out.append(lambda s, k, F=F, d=d, top=top: z3.ForAll([t], z3.Implies(symmap.tomap(s, d.addr).has(t), z3.And(1 <= t, t <= F(s) + top))))
            if depth > 1:
                out.append(lambda s, k, F=F: fin(lambda a: z3.If(PL(st, a) >= 1, z3.And(PL(s, a) == PL(st, a), POS(s, a) == POS(st, a)), z3.Or(PL(s, a) == 0, PL(s, a) == F(s) + 1))))
                for d in fronts:
                    out.append(lambda s, k, F=F, d=d: z3.ForAll([t], z3.Implies(t != F(s) + 1, ln(s, d, t) == ln(st, d, t))))
                    out.append(lambda s, k, F=F, d=d: z3.ForAll([t, i], z3.Implies(z3.And(t != F(s) + 1, rng(i, ln(st, d, t))), el(s, d, t, i) == el(st, d, t, i))))
                    out.append(lambda s, k, F=F, d=d: ln(s, d, F(s)) == ln(st, d, F(s)))
                    out.append(lambda s, k, F=F, d=d: z3.ForAll([i], z3.Implies(rng(i, ln(st, d, F(s))), el(s, d, F(s), i) == el(st, d, F(s), i))))
                    out.append(lambda s, k, F=F, d=d: symmap.tomap(s, d.addr).has(F(s)))
                    out.append(lambda s, k, F=F, d=d: ln(s, d, F(s)) >= 1)

            def proc(s, k, j, F=F):
                before = z3.And(1 <= PL(s, j), PL(s, j) < F(s))
                if depth == 1:
                    return before
                return z3.Or(before, z3.And(PL(s, j) == F(s), POS(s, j) < (k if depth == 2 else k1 + 1)))
            for h in hows:
                def how(s, k, h=h, F=F, proc=proc):
                    e = lambda j, y: z3.And(D(j, y), z3.Not(proc(s, k, j)))
                    ph = eng.inv_phase
                    H = self.heads.get
                    links = [(self.D0 if depth == 1 else H(depth - 1), x1)] if ph == "entry" else [(H(min(depth + 1, 3)), None)] if ph == "end" else []
                    U = self.count(s, e, depth, links)
                    if depth < 3:
                        return fin(lambda a: self.get(s, h, a) == U(a))
                    F_, R, sv = sq.parts
                    return fin(lambda a: self.get(s, h, a) == U(a) + z3.If(z3.And(sv.mem(a), R(a) >= k), 1, 0))
                out.append(how)
        return out

    # ---- the statement
    def post(self, s, d, rank=None):
        P, N, D, g = self.P, self.N, self.dom, self.g
        a, b, i, t = z3.Ints("a!q b!q i!q t!q")
        PL, POS, WIT = [lambda x, f=f: g(s, f, x) for f in ("PL", "POS", "WIT")]
        m = symmap.tomap(s, d.addr)
        ln = lambda t: toz(m.get(t).n)
        el = lambda t, i: m.get(t).get(i).term
        # lemma: a non-empty finite set has a minimal element (proved below)
        w = self.e.fresh_int("least")
        s.facts.append(z3.Or(z3.ForAll([a], z3.Implies(rng(a, N), PL(a) != 0)),
                             z3.And(rng(w, N), PL(w) == 0, z3.ForAll([a], z3.Implies(z3.And(rng(a, N), PL(a) == 0), z3.Not(D(a, w))), patterns=[D(a, w)]))))
        P.have(s, "every individual is put into a front", z3.ForAll([a], z3.Implies(rng(a, N), PL(a) >= 1)))
        P.ensure(s, "it stands in that front", z3.ForAll([a], z3.Implies(rng(a, N), z3.And(rng(POS(a), ln(PL(a))), el(PL(a), POS(a)) == a, m.has(PL(a))))))
        P.ensure(s, "and nowhere else, and the fronts hold nothing else", z3.ForAll([t, i], z3.Implies(rng(i, ln(t)), z3.And(rng(el(t, i), N), PL(el(t, i)) == t, POS(el(t, i)) == i))))
        P.ensure(s, "no member of a front is dominated from the same or a later front", z3.ForAll([a, b], z3.Implies(z3.And(rng(a, N), rng(b, N), D(b, a)), PL(b) < PL(a))))
        P.ensure(s, "a member of a later front is dominated by a member of the front before", z3.ForAll([a], z3.Implies(z3.And(rng(a, N), PL(a) != 1), z3.And(rng(WIT(a), N), PL(WIT(a)) == PL(a) - 1, D(WIT(a), a)))))
        if rank is not None:
            P.ensure(s, "the rank is the number of the front", z3.ForAll([a], z3.Implies(rng(a, N), self.get(s, rank, a) == PL(a))))


@proof("C03", "sum over a finite range that changes in one place", "lemma about counting")
def lem_point(P):
    P.lemma = True
    n, p, m = P.int("n"), P.int("p"), P.int("m")
    e = [z3.Function("e%d" % i, I, B) for i in (1, 2)]
    U = [z3.Function("U%d" % i, I, I) for i in (1, 2)]
    for u, f in zip(U, e):
        k = z3.Int("k!l")
        P.fact(u(0) == 0)
        P.fact(z3.ForAll([k], z3.Implies(k >= 0, u(k + 1) == u(k) + z3.If(f(k), 1, 0)), patterns=[u(k + 1)]))
    j = z3.Int("j!l")
    b = lambda c: z3.If(c, 1, 0)
    P.assume(z3.ForAll([j], z3.Implies(rng(j, n), z3.Or(j == p, e[0](j) == e[1](j)))))
    stmt = lambda n: U[1](n) == U[0](n) + z3.If(rng(p, n), b(e[1](p)) - b(e[0](p)), 0)
    P.ensure(P.st, "point: base", stmt(z3.IntVal(0)))
    P.ensure(P.st, "point: step", z3.Implies(z3.And(m >= 0, m < n, stmt(m)), stmt(m + 1)))
    pos = lambda n: U[0](n) >= 0
    P.ensure(P.st, "never negative: base", pos(z3.IntVal(0)))
    P.ensure(P.st, "never negative: step", z3.Implies(z3.And(m >= 0, pos(m)), pos(m + 1)))
    one = lambda n: z3.Implies(rng(p, n), z3.Implies(e[0](p), U[0](n) >= 1))
    P.ensure(P.st, "positive if one is counted: base", one(z3.IntVal(0)))
    P.ensure(P.st, "positive if one is counted: step", z3.Implies(z3.And(m >= 0, pos(m), one(m)), one(m + 1)))
    none = lambda n: z3.Implies(U[0](n) > 0, z3.Exists([j], z3.And(rng(j, n), e[0](j))))
    P.ensure(P.st, "one is counted if positive: base", none(z3.IntVal(0)))
    P.ensure(P.st, "one is counted if positive: step", z3.Implies(z3.And(m >= 0, none(m)), none(m + 1)))


@proof("C03", "a non-empty finite set under a strict partial order has a minimal element", "lemma about strict partial orders")
def lem_min(P):
    P.lemma = True
    S, D = P.fn1("S", I, B), P.fn1("D", I, I, B)
    a, b, c, w, m = z3.Ints("a b c w m")
    P.fact(z3.ForAll([a], z3.Not(D(a, a))))
    P.fact(z3.ForAll([a, b, c], z3.Implies(z3.And(D(a, b), D(b, c)), D(a, c))))
    has = lambda n, w: z3.And(rng(w, n), S(w), z3.ForAll([a], z3.Implies(z3.And(rng(a, n), S(a)), z3.Not(D(a, w)))))
    empty = lambda n: z3.ForAll([a], z3.Implies(rng(a, n), z3.Not(S(a))))
    P.ensure(P.st, "base", empty(z3.IntVal(0)))
    P.assume(m >= 0)
    P.ensure(P.st, "step: empty so far", z3.Implies(empty(m), z3.Or(empty(m + 1), has(m + 1, m))))
    P.ensure(P.st, "step: minimal element so far", z3.Implies(has(m, w), z3.Or(has(m + 1, w), has(m + 1, m))))


def ordered(P, qual):
    D = P.fn1("DOMINATES", I, I, B)
    w = Sorting(P, lambda x, y: D(x, y))

    def dom(e, st, a, kw, node):
        if not all(isinstance(x, SymObj) for x in a[:2]):
            raise Unsupported("dominance of other values")
        return [(st, D(a[0].term, a[1].term))]
    P.eng.contracts[qual] = dom
    return w


def by_role(P, s, o, kind):
    ds = [v for v in s.heap[o.addr].fields.values() if isinstance(v, DictRef) and getattr(s.heap[v.addr].default, "name", None) == kind]
    if len(ds) != 1:
        raise Unsupported("sorting result kept in another form")
    return ds[0]


@proof("C03", "NSGAII: fronts of any population", "algorithms.NSGAII.NSGAII:NSGAII._nd_sort", budget=120)
def nsgaii(P):
    w = ordered(P, "algorithms.NSGAII.NSGAII:dominates")
    o = P.obj("algorithms.NSGAII.NSGAII:NSGAII", dict(individuals=w.inds))
    for s, v in P.call(P.method(o, "_nd_sort"), [o]):
        w.post(s, s.heap[o.addr].fields["front"], s.heap[o.addr].fields["nsga_rank"])


@proof("C03", "NSLS: fronts of any population", "algorithms.NSLS.NSLS:NSLS.nd_sort", budget=120)
def nsls(P):
    w = ordered(P, "algorithms.NSGAII.NSGAII:dominates")
    o = P.obj("algorithms.NSLS.NSLS:NSLS", dict(individuals=w.inds))
    for s, v in P.call(P.method(o, "nd_sort"), [o]):
        w.post(s, s.heap[o.addr].fields["front"])


@proof("C03", "SMSEMOA: fronts of any population", "algorithms.SMSEMOA.SMSEMOA:nd_sort", budget=120)
def smsemoa(P):
    DV, OBJ = P.fn1("DOMINATES", Vec, Vec, B), P.fn1("OBJECTIVES", I, Vec)
    w = Sorting(P, lambda x, y: DV(OBJ(x), OBJ(y)))
    P.st.heap[("F", "individual", "objectives")] = FMap(lambda t: Seq.ofvec(OBJ(t)))
    P.eng.contracts["evotools.ea_utils:dominates"] = lambda e, st, a, kw, node: [(st, DV(SEQV(e.seq_of(a[0], st)), SEQV(e.seq_of(a[1], st))))]
    for s, v in P.call("algorithms.SMSEMOA.SMSEMOA:nd_sort", [w.inds]):
        w.post(s, v)
        m = symmap.tomap(s, v.addr)
        t = z3.Int("t!k")
        P.ensure(s, "only non-empty fronts are listed", z3.ForAll([t], z3.Implies(m.has(t), z3.And(t >= 1, toz(m.get(t).n) >= 1))))


@proof("C03", "NSGAIII: fronts of any population", "algorithms.NSGAIII.NSGAIII:theta_non_dominated_sort", budget=120)
def nsgaiii(P):
    w = ordered(P, "algorithms.NSGAIII.NSGAIII:dominates")
    for s, v in P.call("algorithms.NSGAIII.NSGAIII:theta_non_dominated_sort", [w.inds]):
        w.post(s, v)


@proof("C03", "NSGAIII: theta dominance is a strict partial order", "algorithms.NSGAIII.NSGAIII:dominates")
def theta(P):
    CL, TH = P.fn1("CLUSTER", I, I), P.fn1("THETA", I, z3.RealSort())
    P.st.heap[("F", "individual", "cluster")] = FMap(lambda t: CL(t))
    P.st.heap[("F", "individual", "theta_fitness")] = FMap(lambda t: TH(t))
    x, y, z = P.int("x"), P.int("y"), P.int("z")
    D = {}
    for a, b in [(x, y), (y, z), (x, z), (x, x)]:
        r = z3.BoolVal(False)
        for s, v in P.call("algorithms.NSGAIII.NSGAIII:dominates", [SymObj(IND, a), SymObj(IND, b)]):
            t = toz(P.eng.truth(v, s))
            P.ensure(s, "within the same cluster, by theta fitness", t == z3.And(CL(a) == CL(b), TH(a) < TH(b)))
            r = z3.Or(r, z3.And(*([c for c in s.pc if is_z3(c)] + [t])))
        D[(a, b)] = r
    P.ensure(P.st, "irreflexive", z3.Not(D[(x, x)]))
    P.ensure(P.st, "transitive", z3.Implies(z3.And(D[(x, y)], D[(y, z)]), D[(x, z)]))
