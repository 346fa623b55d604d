from .lib import *

I, Rl, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Eval:
    """a population of any size, any number of objectives, an optional archive of remembered values"""

    def __init__(self, P, cls, archive, vfield, m=None):
        self.P, self.vfield = P, vfield
        self.N = P.int("N", 0)
        self.m = m if m is not None else P.int("m", 1)
        self.VAL = P.fn1("VALUE", I, Vec)
        self.F = P.fn1("F", I, Vec, Rl)
        self.HAS, self.MEM = P.fn1("HAS", Vec, Bo), P.fn1("MEM", Vec, Vec)
        v = z3.Const("v!e", Vec)
        P.fact(z3.ForAll([v], VLEN(self.MEM(v)) == toz(self.m), patterns=[self.MEM(v)]))
        self.cls = P.get(cls) if isinstance(cls, str) else cls
        P.st.heap[("F", self.cls.name, vfield)] = FMap(lambda t: Seq.ofvec(self.VAL(t)))
        self.OLD = P.fn1("OLD", I, Vec)
        P.st.heap[("F", self.cls.name, "objectives")] = FMap(lambda t: Seq.ofvec(self.OLD(t)))
        self.inds = P.lst(Seq(self.N, lambda i: SymObj(self.cls, toz(i))))
        # contract of an objective function: its value depends on the solution only
        self.fits = P.lst(Seq(self.m, lambda i: UFun(lambda e, s, args: [(s, self.F(toz(i), SEQV(e.seq_of(args[0], s))))], "objective")))
        self.arch = None
        if archive:
            self.arch = SpecObj({"__contains__": UFun(lambda e, s, a: [(s, self.HAS(SEQV(e.seq_of(a[0], s))))]),
                                 "__getitem__": UFun(self.getmem)}, "archive")

    def getmem(self, e, s, a):
        k = SEQV(e.seq_of(a[0], s))
        self.P.ensure(s, "only remembered solutions are looked up", self.HAS(k))
        return [(s, Seq.ofvec(self.MEM(k), self.m))]

    def hit(self, j):
        return self.HAS(self.VAL(j)) if self.arch is not None else z3.BoolVal(False)

    def miss(self, j):
        return z3.If(self.hit(j), z3.IntVal(0), z3.IntVal(1))

    def done(self, s, j):
        """individual j carries its own objective values"""
        o = self.P.eng.getattr(s, SymObj(self.cls, toz(j)), "objectives")[0][1]
        sq = self.P.seq(o, s)
        i = z3.Int("i!o")
        want = lambda i: z3.If(self.hit(j), VGET(self.MEM(self.VAL(j)), i), self.F(i, self.VAL(j)))
        return z3.And(toz(sq.n) == toz(self.m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < toz(self.m)), R(sq.get(i)) == want(i))))

    def cands(self):
        P = self.P

        def f(eng, st):
            out = [lambda s, k: forall(k, lambda j: self.done(s, j))]
            for n, v in st.frames[st.cur].items():
                if is_num(v) and not n.startswith("__"):
                    out.append(lambda s, k, n=n, v=v: toz(num(s.frames[st.cur][n])) == toz(num(v)) + SUM(P, k, lambda j: self.miss(j)))
            return out
        P.eng.loop_inv, P.eng.inv_for = f, True


def mk(name, mod, cls, ind, vfield, how):
    for archive in (False, True):
        @proof("C08", "%s: evaluation costs one per solution not remembered%s" % (name, ", with an archive" if archive else ""), "%s:%s.calculate_objectives" % (mod, cls))
        def pr(P, archive=archive):
            e = Eval(P, ind, archive, vfield)
            e.cands()
            alg = P.obj("%s:%s" % (mod, cls), dict(fitnesses=e.fits, fitness_archive=e.arch, individuals=e.inds))
            for s, c in P.call(P.method(alg, "calculate_objectives"), [alg] + ([e.inds] if how == "arg" else [])):
                P.ensure(s, "one unit per computed solution, nothing for a remembered one", toz(num(c)) == SUM(P, e.N, lambda j: e.miss(j)))
                P.ensure(s, "every individual gets its own objective values", forall(e.N, lambda j: e.done(s, j)))
                P.ensure(s, "cost is not negative", toz(num(c)) >= 0)


DICT = ClassVal("dict:individual", None, [], {}, None)
mk("SPEA2", "algorithms.SPEA2.SPEA2", "SPEA2", DICT, "value", "arg")
mk("OMOPSO", "algorithms.OMOPSO.OMOPSO", "OMOPSO", "algorithms.OMOPSO.OMOPSO:Individual", "value", "self")
mk("SMSEMOA", "algorithms.SMSEMOA.SMSEMOA", "SMSEMOA", "algorithms.SMSEMOA.SMSEMOA:Individual", "value", "arg")


class Memo:
    """individuals that remember their own objective values once computed, and an optional archive that is written back.
    A solution is identified by its contents (an integer); F(i, v) is the value of objective i, a function of the solution only."""

    def __init__(self, P, cls, archive, m, names):
        self.P, self.m = P, m
        self.cls = P.get(cls)
        self.N = P.int("N", 0)
        self.V, self.UNK = P.fn1("V", I, I), P.fn1("UNKNOWN", I, Bo)
        self.OLD, self.F = P.fn1("OLD", I, Vec), P.fn1("F", I, I, Rl)
        self.HAS0, self.MEM0 = P.fn1("HAS0", I, Bo), P.fn1("MEM0", I, Vec)
        h = P.st.heap
        h[("F", self.cls.name, "v")] = FMap(lambda t: Tok(self.V(toz(t))))
        h[self.okey] = FMap(lambda t: Opt.mk(self.UNK(toz(t)), Seq.ofvec(self.OLD(toz(t)), m)))
        self.mem, self.has = ("F", "memory", "MEM"), ("F", "memory", "HAS")
        h[self.has] = FMap(lambda t: self.HAS0(toz(t)))
        h[self.mem] = FMap(lambda t: Seq.ofvec(self.MEM0(toz(t)), m))
        t = z3.Int("t!m")
        i = z3.Int("i!m")
        # what the archive remembers and what an individual already carries are the values of that solution
        for k in (range(m) if isinstance(m, int) else ()):
            P.fact(z3.ForAll([t], z3.Implies(self.HAS0(t), VGET(self.MEM0(t), z3.IntVal(k)) == self.F(k, t)), patterns=[self.MEM0(t)]))
            P.fact(z3.ForAll([t], z3.Implies(z3.Not(self.UNK(t)), VGET(self.OLD(t), z3.IntVal(k)) == self.F(k, self.V(t))), patterns=[self.OLD(t)]))
        if not isinstance(m, int):
            P.fact(z3.ForAll([t, i], z3.Implies(z3.And(self.HAS0(t), 0 <= i, i < m), VGET(self.MEM0(t), i) == self.F(i, t)), patterns=[VGET(self.MEM0(t), i)]))
            P.fact(z3.ForAll([t, i], z3.Implies(z3.And(z3.Not(self.UNK(t)), 0 <= i, i < m), VGET(self.OLD(t), i) == self.F(i, self.V(t))), patterns=[VGET(self.OLD(t), i)]))
        self.inds = P.lst(Seq(self.N, lambda k: SymObj(self.cls, toz(k))))
        self.ufs = None
        if isinstance(m, int):
            self.ufs = [self.objective(k) for k in range(m)]
            self.fits = P.lst(Seq.lit(self.ufs))
        else:
            self.fits = P.lst(Seq(m, lambda k: self.objective(k)))
        self.arch = None
        if archive:
            self.arch = SpecObj({"__contains__": UFun(lambda e, s, a: [(s, s.heap[self.has].get(a[0].t))]),
                                 "__getitem__": UFun(self.recall), "__setitem__": UFun(self.remember)}, "archive")
        self.cost0 = P.int("cost", 0)
        self.alg = P.obj(names[0], {names[1]: self.fits, "fitness_archive": self.arch, "individuals": self.inds, "cost": self.cost0})

    @property
    def okey(self):
        return ("F", self.cls.name, "objectives")

    def objective(self, k):
        return UFun(lambda e, s, a: [(s, self.F(toz(k), a[0].t))], "objective")

    def recall(self, e, s, a):
        self.P.ensure(s, "only remembered solutions are looked up", toz(s.heap[self.has].get(a[0].t)))
        sq = s.heap[self.mem].get(a[0].t)
        if isinstance(self.m, int):
            self.P.ensure(s, "one remembered value per objective", toz(sq.n) == self.m)
            sq = Seq.lit([sq.get(k) for k in range(self.m)])
        return [(s, sq)]

    def remember(self, e, s, a):
        val = Opt.of(a[1])
        self.P.ensure(s, "only values are stored", z3.Not(toz(val.isnone)))
        sq = val.val if isinstance(val.val, Seq) else e.seq_of(val.val, s)
        s.heap[self.has] = s.heap[self.has].set(a[0].t, True)
        s.heap[self.mem] = s.heap[self.mem].set(a[0].t, sq)
        return [(s, None)]

    def values(self, sq, v):
        """the sequence holds the objective values of solution v"""
        if isinstance(self.m, int):
            return z3.And(toz(sq.n) == self.m, *[R(sq.get(k)) == self.F(k, v) for k in range(self.m)])
        i = z3.Int("i!v")
        return z3.And(toz(sq.n) == self.m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.m), R(sq.get(i)) == self.F(i, v))))

    def done(self, s, j):
        o = Opt.of(s.heap[self.okey].get(toz(j)))
        if o.val is None:
            return z3.BoolVal(False)
        return z3.And(z3.Not(toz(o.isnone)), self.values(o.val, self.V(j)))

    def same(self, s, j):
        o = Opt.of(s.heap[self.okey].get(toz(j)))
        return z3.And(toz(o.isnone) == self.UNK(j), z3.Implies(z3.Not(self.UNK(j)), self.values(o.val, self.V(j))))

    def miss(self, j):
        """the value of individual j has to be computed: it is not known, nor remembered, nor computed for an earlier one"""
        if self.arch is None:
            return z3.If(self.UNK(j), z3.IntVal(1), z3.IntVal(0))
        return z3.If(z3.And(self.UNK(j), z3.Not(self.HAS0(self.V(j))), z3.Not(self.computed(j, self.V(j)))), z3.IntVal(1), z3.IntVal(0))

    def computed(self, k, v):
        p = z3.Int("p!c")
        return z3.Exists([p], z3.And(0 <= p, p < toz(k), self.UNK(p), self.V(p) == v))

    def remembered(self, s, k):
        """the archive: what it held before, and the solutions evaluated so far"""
        t = z3.Int("t!r")
        return z3.ForAll([t], toz(s.heap[self.has].get(t)) == z3.Or(self.HAS0(t), self.computed(k, t)))

    def right(self, s):
        t = z3.Int("t!w")
        return z3.ForAll([t], z3.Implies(toz(s.heap[self.has].get(t)), self.values(s.heap[self.mem].get(t), t)))

    def cost(self, s):
        return toz(num(s.heap[self.alg.addr].fields["cost"]))

    def cands(self):
        P = self.P

        def f(eng, st):
            out = [lambda s, k: forall(k, lambda j: self.done(s, j)),
                   lambda s, k: forall(self.N, lambda j: z3.Implies(j >= toz(k), self.same(s, j))),
                   lambda s, k: self.cost(s) == toz(self.cost0) + SUM(P, k, lambda j: self.miss(j))]
            if self.arch is not None:
                out += [lambda s, k: self.right(s), lambda s, k: self.remembered(s, k)]
            return out
        P.eng.loop_inv, P.eng.inv_for = f, True


def memo(name, mod, cls, ind, method, fits, m, how):
    for archive in (False, True):
        @proof("C08", "%s: evaluation computes every missing value once%s" % (name, ", with an archive" if archive else ""), "%s:%s.%s" % (mod, cls, method))
        def pr(P, archive=archive):
            e = Memo(P, ind, archive, m if m is not None else P.int("m", 1), ("%s:%s" % (mod, cls), fits))
            if e.ufs is not None:
                P.eng.value_dicts[(e.cls.name, "objectives")] = e.ufs
            e.cands()
            for s, c in P.call(P.method(e.alg, method), [e.alg] + ([e.inds] if how == "arg" else [])):
                P.ensure(s, "one unit per computed solution, nothing for a known or remembered one", e.cost(s) == toz(e.cost0) + SUM(P, e.N, lambda j: e.miss(j)))
                P.ensure(s, "every individual carries its own objective values", forall(e.N, lambda j: e.done(s, j)))
                if archive:
                    P.ensure(s, "the archive holds the right values", e.right(s))
                    P.ensure(s, "what was evaluated is remembered", e.remembered(s, e.N))


memo("NSGA-III", "algorithms.NSGAIII.NSGAIII", "NSGAIII", "algorithms.NSGAIII.NSGAIII:Individual", "_calculate_objectives", "objectives", None, "arg")
for _m in (2, 3):
    memo("NSGA-II (%d objectives)" % _m, "algorithms.NSGAII.NSGAII", "NSGAII", "algorithms.NSGAII.NSGAII:Individual", "_calculate_objectives", "objectives", _m, "self")
    memo("NSLS (%d objectives)" % _m, "algorithms.NSLS.NSLS", "NSLS", "algorithms.NSLS.NSLS:Individual", "calculate_objectives", "objectives", _m, "arg")


# ---- IBEA: charged when the population is scaled, known afterwards
for _arch in (False, True):
    @proof("C08", "IBEA: scaling charges one unit per solution neither known nor remembered%s" % (", with an archive" if _arch else ""), "algorithms.IBEA.IBEA:IBEA._scale_objectives")
    def ibea_scale(P, arch=_arch):
        cls = P.get("algorithms.IBEA.IBEA:IBEA.Individual")
        N, m = P.int("N", 1), P.int("m", 1)
        V, KN, HAS = P.fn1("V", I, I), P.fn1("KNOWN", I, Bo), P.fn1("HAS", I, Bo)
        F = P.fn1("F", I, I, Rl)
        h = P.st.heap
        h[("F", cls.name, "v")] = FMap(lambda t: Tok(V(toz(t))))
        kk = ("F", cls.name, "known_objectives")
        h[kk] = FMap(lambda t: KN(toz(t)))
        inds = P.lst(Seq(N, lambda k: SymObj(cls, toz(k))))
        fits = P.lst(Seq(m, lambda k: UFun(lambda e, s, a: [(s, F(toz(k), a[0].t))], "objective")))
        archive = SpecObj({"__contains__": UFun(lambda e, s, a: [(s, HAS(a[0].t))])}, "archive") if arch else None
        cost0 = P.int("cost", 0)
        alg = P.obj("algorithms.IBEA.IBEA:IBEA", dict(individuals=inds, objectives=fits, fitness_archive=archive, cost=cost0))
        miss = lambda j: z3.If(z3.And(z3.Not(KN(j)), z3.Not(HAS(V(j))) if arch else z3.BoolVal(True)), z3.IntVal(1), z3.IntVal(0))
        cost = lambda s: toz(num(s.heap[alg.addr].fields["cost"]))
        known = lambda s, j: toz(s.heap[kk].get(toz(j)))
        P.eng.loop_inv = lambda eng, st: [lambda s, k: forall(k, lambda j: known(s, j)),
                                          lambda s, k: forall(N, lambda j: z3.Implies(j >= toz(k), known(s, j) == KN(j))),
                                          lambda s, k: cost(s) == toz(cost0) + SUM(P, k, miss)]
        P.eng.inv_for = True
        for s, _ in P.call(P.method(alg, "_scale_objectives"), [alg]):
            P.ensure(s, "one unit per solution whose values were not at hand", cost(s) == toz(cost0) + SUM(P, N, miss))
            P.ensure(s, "afterwards every individual is known", forall(N, lambda j: known(s, j)))

    @proof("C08", "IBEA: values asked for one solution%s" % (", with an archive" if _arch else ""), "algorithms.IBEA.IBEA:IBEA.calculate_objectives")
    def ibea_one(P, arch=_arch):
        cls = P.get("algorithms.IBEA.IBEA:IBEA.Individual")
        m = P.int("m", 1)
        F, MEM = P.fn1("F", I, I, Rl), P.fn1("MEM", I, Vec)
        v, kn, has = P.int("v"), P.bool("known"), P.bool("has")
        fits = P.lst(Seq(m, lambda k: UFun(lambda e, s, a: [(s, F(toz(k), a[0].t))], "objective")))
        archive = None
        if arch:
            archive = SpecObj({"__contains__": UFun(lambda e, s, a: [(s, has)]),
                               "__getitem__": UFun(lambda e, s, a: (P.ensure(s, "only remembered solutions are looked up", has), [(s, Seq.ofvec(MEM(a[0].t), m))])[1])}, "archive")
        cost0 = P.int("cost", 0)
        alg = P.obj("algorithms.IBEA.IBEA:IBEA", dict(objectives=fits, fitness_archive=archive, cost=cost0))
        ind = P.obj(cls, dict(v=Tok(toz(v)), known_objectives=kn))
        hit = toz(has) if arch else z3.BoolVal(False)
        for s, r in P.call(P.method(alg, "calculate_objectives"), [alg, ind]):
            sq = P.seq(r, s)
            i = z3.Int("i!b")
            P.ensure(s, "the values of that solution, or the remembered ones",
                     z3.And(toz(sq.n) == toz(m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < toz(m)), R(sq.get(i)) == z3.If(hit, VGET(MEM(toz(v)), i), F(i, toz(v)))))))
            P.ensure(s, "one unit unless known or remembered",
                     toz(num(s.heap[alg.addr].fields["cost"])) == toz(cost0) + z3.If(z3.Or(hit, toz(kn)), z3.IntVal(0), z3.IntVal(1)))


# ---- what a step charges
class Charge:
    """ghost account: what the evaluations of a step cost"""

    def __init__(self, P):
        self.P = P
        self.key = ("F", "account", "SPENT")
        P.st.heap[self.key] = FMap(lambda t: 0)

    def spent(self, s):
        return toz(num(s.heap[self.key].get(z3.IntVal(0))))

    def charge(self, e, s):
        c = e.fresh("spent", I)
        e.fact(s, c >= 0)
        s.heap[self.key] = s.heap[self.key].set(z3.IntVal(0), self.spent(s) + c)
        return c


def cost_of(s, alg):
    return toz(num(s.heap[alg.addr].fields["cost"]))


@proof("C08", "SMSEMOA: a step charges exactly what its evaluations cost", "algorithms.SMSEMOA.SMSEMOA:SMSEMOA.step")
def smsemoa_step(P):
    A = Charge(P)
    cls = P.get("algorithms.SMSEMOA.SMSEMOA:Individual")
    ek = ("F", cls.name, "EVALUATED")
    EV0 = P.fn1("EV0", I, Bo)
    P.st.heap[ek] = FMap(lambda t: EV0(toz(t)))
    N, steps, cost0 = P.int("N", 1), P.int("epoch", 0), P.int("cost", 0)
    ID = P.fn1("ID", I, I)
    P.assume(forall(N, lambda j: EV0(ID(j))))
    inds = P.lst(Seq(N, lambda k: SymObj(cls, ID(toz(k)))))
    q = "algorithms.SMSEMOA.SMSEMOA:SMSEMOA."

    def generate(e, s, a, kw, node):
        return [(s, SymObj(cls, e.fresh("child", I)))]

    def evaluate(e, s, a, kw, node):
        sq = e.seq_of(a[1], s)
        for o in sq.items():
            s.heap[ek] = s.heap[ek].set(o.term, True)
        return [(s, A.charge(e, s))]

    def reduce(e, s, a, kw, node):
        sq = e.seq_of(a[1], s)
        P.ensure(s, "only evaluated individuals take part in the selection", forall(sq.n, lambda j: toz(s.heap[ek].get(toz(sq.get(j).term)))))
        n2 = e.fresh("rest", I)
        f, w = e.fresh_fun("kept", 1, I), e.fresh_fun("from", 1, I)
        j = z3.Int("j!r")
        e.fact(s, n2 >= 0)
        e.fact(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n2), z3.And(0 <= w(j), w(j) < toz(sq.n), f(j) == toz(sq.get(w(j)).term))), patterns=[f(j)]))
        return [(s, e.new_list(s, Seq(n2, lambda t: SymObj(cls, f(toz(t))))))]

    P.eng.contracts[q + "generate"] = generate
    P.eng.contracts[q + "calculate_objectives"] = evaluate
    P.eng.contracts[q + "reduce_population"] = reduce
    alg = P.obj("algorithms.SMSEMOA.SMSEMOA:SMSEMOA", dict(individuals=inds, epoch_length=steps, cost=cost0, step_no=0))

    def evald(s):
        sq = P.seq(s.heap[alg.addr].fields["individuals"], s)
        return forall(sq.n, lambda j: toz(s.heap[ek].get(toz(sq.get(j).term))))
    P.eng.loop_inv = lambda eng, st: [lambda s, k: cost_of(s, alg) == toz(cost0) + A.spent(s), lambda s, k: A.spent(s) >= 0, lambda s, k: evald(s)]
    P.eng.inv_for = True
    for s, _ in P.call(P.method(alg, "step"), [alg]):
        P.ensure(s, "the cost grows by what the evaluations cost", cost_of(s, alg) == toz(cost0) + A.spent(s))
        P.ensure(s, "the cost never decreases", cost_of(s, alg) >= toz(cost0))
        P.ensure(s, "every individual kept has been evaluated", evald(s))


@proof("C08", "SPEA2: the fitness pass charges exactly its evaluations", "algorithms.SPEA2.SPEA2:SPEA2.calculate_fitnesses")
def spea2_fit(P):
    A = Charge(P)
    q = "algorithms.SPEA2.SPEA2:SPEA2."
    n, k = P.int("n", 0), P.int("k", 0)
    pop = P.lst(Seq(n, lambda t: SymObj(DICT, toz(t))))
    arch = P.lst(Seq(k, lambda t: SymObj(DICT, toz(n) + toz(t))))
    seen = []
    OF = P.fn1("OLDFIT", I, Rl)
    P.st.heap[("F", DICT.name, "fitness")] = FMap(lambda t: OF(toz(t)))

    def evaluate(e, s, a, kw, node):
        sq = e.seq_of(a[1], s)
        P.ensure(s, "the population is evaluated, not the archive", z3.And(toz(sq.n) == toz(n), forall(n, lambda j: toz(sq.get(j).term) == j)))
        seen.append(1)
        return [(s, A.charge(e, s))]
    P.eng.contracts[q + "calculate_objectives"] = evaluate
    P.eng.contracts[q + "calculate_dominated"] = lambda e, s, a, kw, node: [(s, None)]
    P.eng.contracts[q + "calculate_raw_fitness"] = lambda e, s, a, kw, node: [(s, e.fresh("raw", Rl))]
    P.eng.contracts[q + "calculate_density"] = lambda e, s, a, kw, node: [(s, e.fresh("density", Rl))]
    alg = P.obj("algorithms.SPEA2.SPEA2:SPEA2", dict(individuals=pop, archive=arch, cost=0))
    P.eng.loop_inv, P.eng.inv_for = (lambda eng, st: [lambda s, k: A.spent(s) == A.spent(st)]), True
    for s, c in P.call(P.method(alg, "calculate_fitnesses"), [alg, pop, arch]):
        P.ensure(s, "what is charged is what the evaluations cost", toz(num(c)) == A.spent(s))
        if not seen:
            raise Unsupported("the evaluation is done elsewhere")


@proof("C08", "SPEA2: a step charges exactly its fitness pass", "algorithms.SPEA2.SPEA2:SPEA2.step")
def spea2_step(P):
    A = Charge(P)
    q = "algorithms.SPEA2.SPEA2:SPEA2."
    n, cost0 = P.int("n", 0), P.int("cost", 0)
    pop = P.lst(Seq(n, lambda t: SymObj(DICT, toz(t))))
    P.eng.contracts[q + "calculate_fitnesses"] = lambda e, s, a, kw, node: [(s, A.charge(e, s))]
    P.eng.contracts[q + "population"] = lambda e, s, a, kw, node: [(s, None)]
    P.eng.contracts[q + "environmental_selection"] = lambda e, s, a, kw, node: [(s, e.new_list(s, Seq.lit([])))]
    P.eng.contracts["algorithms.base.drivertools:mutate"] = lambda e, s, a, kw, node: [(s, Tok(e.fresh("m", I)))]
    P.eng.contracts["algorithms.base.drivertools:crossover"] = lambda e, s, a, kw, node: [(s, Tok(e.fresh("x", I)))]
    alg = P.obj("algorithms.SPEA2.SPEA2:SPEA2", dict(individuals=pop, archive=P.lst(Seq.lit([])), cost=cost0, step_no=0, dims=None, crossover_rate=P.real("cr"),
                crossover_eta=P.real("ce"), mutation_rate=P.real("mr"), mutation_eta=P.real("me"),
                select=UFun(lambda e, s, a: [(s, Tok(e.fresh("sel", I)))], "select"), trim_function=UFun(lambda e, s, a: [(s, a[0])], "trim")))
    for s, _ in P.call(P.method(alg, "step"), [alg]):
        P.ensure(s, "the cost grows by what the fitness pass cost", cost_of(s, alg) == toz(cost0) + A.spent(s))


@proof("C08", "OMOPSO: a step charges exactly what its evaluations cost", "algorithms.OMOPSO.OMOPSO:OMOPSO.step")
def omopso_step(P):
    A = Charge(P)
    q = "algorithms.OMOPSO.OMOPSO:OMOPSO."
    n, cost0 = P.int("n", 0), P.int("cost", 0)
    cls = P.get("algorithms.OMOPSO.OMOPSO:Individual")
    V = P.fn1("V", I, I)
    TR = P.fn1("TRIM", I, I)
    vk, ek = ("F", cls.name, "value"), ("F", cls.name, "EVALUATED_AT")
    P.st.heap[vk] = FMap(lambda t: Tok(V(toz(t))))
    E0 = P.fn1("E0", I, I)
    P.st.heap[ek] = FMap(lambda t: E0(toz(t)))
    pop = P.lst(Seq(n, lambda t: SymObj(cls, toz(t))))

    def evaluate(e, s, a, kw, node):
        sq = e.seq_of(s.heap[a[0].addr].fields["individuals"], s)
        vm = s.heap[vk]
        s.heap[ek] = FMap(lambda t: vm.get(t).t)
        return [(s, A.charge(e, s))]
    P.eng.contracts[q + "calculate_objectives"] = evaluate
    lead = SpecObj({"crowding": UFun(lambda e, s, a: [(s, None)]), "archive": P.lst(Seq.lit([]))}, "leaders")
    for nm in ("compute_speed", "move", "mopso_mutation"):
        def moves(e, s, a, kw, node, nm=nm):
            g = e.fresh_fun("moved", 1, I)
            s.heap[vk] = FMap(lambda t: Tok(g(toz(t))))
            return [(s, None)]
        P.eng.contracts[q + nm] = moves
    for nm in ("update_leaders", "update_personal_best"):
        def uses(e, s, a, kw, node):
            P.ensure(s, "leaders and personal bests see the values of the present positions", forall(n, lambda j: toz(s.heap[ek].get(j)) == s.heap[vk].get(j).t))
            return [(s, None)]
        P.eng.contracts[q + nm] = uses
    alg = P.obj("algorithms.OMOPSO.OMOPSO:OMOPSO", dict(individuals=pop, cost=cost0, step_no=0, gen_no=P.int("gen", 0), max_budget=P.int("budget", 1), leader_archive=lead, logger=SpecObj({"debug": UFun(lambda e, s, a: [(s, None)])}, "logger"),
                archive=SpecObj({"archive": P.lst(Seq.lit([]))}, "archive"), trim_function=UFun(lambda e, s, a: [(s, Tok(TR(a[0].t)))], "trim")))
    P.eng.loop_inv, P.eng.inv_for = (lambda eng, st: [lambda s, k: cost_of(s, alg) == cost_of(st, alg)]), True
    for s, _ in P.call(P.method(alg, "step"), [alg]):
        P.ensure(s, "the cost grows by what the evaluations cost", cost_of(s, alg) == toz(cost0) + A.spent(s))
        P.ensure(s, "one evaluation pass over the moved swarm", forall(n, lambda j: toz(s.heap[ek].get(j)) == s.heap[vk].get(j).t))


@proof("C08", "BOGO: construction charges one per starting solution", "algorithms.BOGO.BOGO:BOGO.__init__")
def bogo_init(P):
    N = P.int("N", 0)
    V = P.fn1("V", I, I)
    pop = P.lst(Seq(N, lambda t: Tok(V(toz(t)))))
    q = "algorithms.BOGO.BOGO:BOGO."
    P.eng.contracts[q + "refresh_archive"] = lambda e, s, a, kw, node: [(s, None)]
    P.eng.contracts["algorithms.BOGO.BOGO:Individual"] = lambda e, s, a, kw, node: [(s, Tok(e.fresh("ind", I)))]
    alg = P.obj("algorithms.BOGO.BOGO:BOGO", {})
    P.eng.loop_inv, P.eng.inv_for = (lambda eng, st: [lambda s, k: cost_of(s, alg) == toz(k)]), True
    fits = P.lst(Seq.lit([]))
    for s, _ in P.call(P.method(alg, "__init__"), [alg, pop, None, fits, P.real("mv"), P.real("cv")], {}):
        P.ensure(s, "one unit per starting solution", cost_of(s, alg) == toz(N))


@proof("C08", "BOGO: a step draws, evaluates and charges one solution", "algorithms.BOGO.BOGO:BOGO.step, algorithms.BOGO.BOGO:Individual.__init__")
def bogo_step(P):
    d, m, cost0 = P.int("d", 1), P.int("m", 1), P.int("cost", 0)
    LO, HI = P.fn1("LO", I, Rl), P.fn1("HI", I, Rl)
    F = P.fn1("F", I, Vec, Rl)
    cache = {}

    def vec(e, s, sq):
        if sq.vec is not None:
            return sq.vec
        if id(sq) not in cache:
            cache[id(sq)] = (z3.Const("vector!%d" % len(cache), Vec), sq)
        return cache[id(sq)][0]
    P.assume(forall(d, lambda j: LO(j) <= HI(j)))
    dims = P.lst(Seq(d, lambda t: (LO(toz(t)), HI(toz(t)))))
    fits = P.lst(Seq(m, lambda t: UFun(lambda e, s, a: [(s, F(toz(t), vec(e, s, e.seq_of(a[0], s))))], "objective")))
    seen = []

    def refresh(e, s, a, kw, node):
        f = s.heap[a[1].addr].fields
        fit, v = e.seq_of(f["fit"], s), e.seq_of(f["v"], s)
        P.ensure(s, "the new solution is inside the bounds", z3.And(toz(v.n) == toz(d), forall(d, lambda j: z3.And(R(v.get(j)) >= LO(j), R(v.get(j)) <= HI(j)))))
        P.ensure(s, "it carries its own objective values", z3.And(toz(fit.n) == toz(m), forall(m, lambda j: R(fit.get(j)) == F(j, vec(e, s, v)))))
        seen.append(1)
        return [(s, None)]
    P.eng.contracts["algorithms.BOGO.BOGO:BOGO.refresh_archive"] = refresh
    alg = P.obj("algorithms.BOGO.BOGO:BOGO", dict(dims=dims, fitnesses=fits, cost=cost0, step_no=0, archive=P.lst(Seq.lit([]))))
    for s, _ in P.call(P.method(alg, "step"), [alg]):
        P.ensure(s, "one unit for one evaluated solution", cost_of(s, alg) == toz(cost0) + 1)
        if not seen:
            raise Unsupported("the archive is refreshed elsewhere")


# ---- the archive itself
def archive_proof(mod):
    @proof("C08", "fitness archive (%s): entries are found by the contents of the solution" % mod, "%s:ResultArchive.__keytransform__, %s:TransformedDict.__getitem__, %s:TransformedDict.__setitem__, %s:TransformedDict.__delitem__" % ((mod,) * 4))
    def arch(P):
        n1, n2 = P.int("n1", 0), P.int("n2", 0)
        A_, B_ = P.fn1("A", I, Rl), P.fn1("B", I, Rl)
        a, b = P.lst(Seq(n1, lambda t: A_(toz(t)))), P.lst(Seq(n2, lambda t: B_(toz(t))))
        HAS, MEM = P.fn1("HAS", Vec, Bo), P.fn1("MEM", Vec, I)
        x, y = z3.Consts("x!k y!k", Vec)
        i = z3.Int("i!k")
        # a tuple used as a key is its contents
        same = z3.And(toz(n1) == toz(n2), forall(n1, lambda j: A_(j) == B_(j)))
        hist = []

        def key(e, s, v):
            if not isinstance(v, (Seq, tuple)) and not (isinstance(v, ListRef)):
                raise Unsupported("key is not a tuple")
            if isinstance(v, ListRef):
                P.ensure(s, "a list cannot be a key", z3.BoolVal(False))
            sq = v if isinstance(v, Seq) else e.seq_of(v, s)
            k = e.fresh("key", Vec)
            e.fact(s, VLEN(k) == toz(sq.n))
            e.fact(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < toz(sq.n)), VGET(k, i) == R(sq.get(i)))))
            return k

        def setitem(e, s, args):
            k = key(e, s, args[0])
            hist.append((k, args[1]))
            return [(s, None)]

        def eqv(k1, k2):
            return z3.And(VLEN(k1) == VLEN(k2), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VLEN(k1)), VGET(k1, i) == VGET(k2, i))))

        def getitem(e, s, args):
            k = key(e, s, args[0])
            r = e.fresh("found", I)
            cur = MEM(k)
            for k1, v1 in hist:
                cur = z3.If(eqv(k, k1), v1.t, cur)
            e.fact(s, r == cur)
            return [(s, Tok(r))]
        store = SpecObj({"__getitem__": UFun(getitem), "__setitem__": UFun(setitem)}, "store")
        o = P.obj("%s:ResultArchive" % mod, dict(store=store))
        v1, v2 = P.int("v1"), P.int("v2")
        for s, _ in P.call(P.method(o, "__setitem__"), [o, a, Tok(toz(v1))]):
            for s, _ in P.call(P.method(o, "__setitem__"), [o, b, Tok(toz(v2))], st=s):
                for s, r in P.call(P.method(o, "__getitem__"), [o, a], st=s):
                    P.ensure(s, "distinct solutions do not share an entry", z3.Implies(z3.Not(same), r.t == toz(v1)))
                    P.ensure(s, "equal solutions share an entry", z3.Implies(same, r.t == toz(v2)))


for _mod in ("algorithms.HGS.tools", "algorithms.HGS.classic.ClassicHGS"):
    archive_proof(_mod)
