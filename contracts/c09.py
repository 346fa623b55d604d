from .lib import *

D = "algorithms.base.driver:"


class World:
    """a driver that takes steps, an observer that is told about them, a clock"""

    def __init__(self, P, may_step, check_next=None):
        self.P = P
        eng = P.eng
        I, Rl = z3.IntSort(), z3.RealSort()
        self.STEP, self.COST, self.DUR = P.fn1("STEPNO", I, I), P.fn1("COSTAT", I, Rl), P.fn1("DURATION", I, Rl)
        k = z3.Int("k!w")
        P.fact(z3.ForAll([k], self.DUR(k) >= 0, patterns=[self.DUR(k)]))
        msg = P.get("algorithms.base.model:ProgressMessage")
        P.st.heap[("F", "ProgressMessage", "step_no")] = FMap(lambda t: self.STEP(t))
        P.st.heap[("F", "ProgressMessage", "cost")] = FMap(lambda t: self.COST(t))
        self.g = g = Ghost(P, taken=z3.IntVal(0), emitted=z3.IntVal(0), completed=z3.IntVal(0), clock=P.real("clock0"), elapsed=z3.RealVal(0), before=z3.RealVal(0))
        drv = P.get(D + "Driver")
        self.driver = P.obj(drv, dict(cost=self.COST(z3.IntVal(-1)), step_no=0, finished=False, max_budget=None))

        def next_step(e, st, args, kw, node):
            t = g.get(st, "taken")
            P.ensure(st, "a step is taken only while the limit is not reached", may_step(st))
            P.ensure(st, "the finished run takes no step", g.get(st, "completed") == 0)
            g.set(st, "taken", t + 1)
            e.setattr(st, self.driver, "cost", self.COST(t))
            g.set(st, "clock", g.get(st, "clock") + self.DUR(t))
            g.set(st, "before", g.get(st, "elapsed"))
            g.set(st, "elapsed", g.get(st, "elapsed") + self.DUR(t))
            return [(st, SymObj(msg, t))]
        eng.contracts[D + "Driver.next_step"] = next_step
        eng.contracts["lib:time.time"] = lambda e, st, a, kw, node: [(st, g.get(st, "clock"))]

        def on_next(st, args):
            P.ensure(st, "nothing is reported after completion", g.get(st, "completed") == 0)
            check_next(self, st, args[0])
            g.set(st, "emitted", g.get(st, "emitted") + 1)

        def on_completed(st, args):
            P.ensure(st, "completion is reported once", g.get(st, "completed") == 0)
            g.set(st, "completed", g.get(st, "completed") + 1)
        self.observer = SpecObj({"on_next": METHOD(on_next), "on_completed": METHOD(on_completed)}, "observer")
        self.subscribed = []

        def create(e, st, a, kw, node):
            return [(st, SpecObj({"subscribe_fn": a[0]}, "observable"))]
        eng.contracts["lib:rx.create"] = create

    def subscribe(self, run):
        """create the job and subscribe to it (contract of rx.create: subscribing calls the function with the observer)"""
        P = self.P
        outs = []
        for s, ob in P.call(P.method(run, "create_job"), [run, self.driver]):
            P.ensure(s, "creating the job takes no step", self.g.get(s, "taken") == 0)
            if not isinstance(ob, SpecObj):
                raise Unsupported("job of another form")
            outs += P.call(ob.attrs["subscribe_fn"], [self.observer, None], st=s)
        return outs


@proof("C09", "budget run: steps exactly below the budget, one message each, in order", D + "BudgetRun._start")
def budget(P):
    b = P.real("budget")

    def nxt(w, st, m):
        P.ensure(st, "the message reported is that of the step just taken", isinstance(m, SymObj))
        P.ensure(st, "messages in step order, none skipped or repeated", z3.And(m.term == w.g.get(st, "taken") - 1, w.g.get(st, "emitted") == m.term))
    w = World(P, lambda st: R(P.eng.getattr(st, w.driver, "cost")[0][1]) < b, nxt)
    g = w.g
    P.eng.loop_inv = lambda eng, st: [lambda s, k: g.get(s, "emitted") == g.get(s, "taken"), lambda s, k: g.get(s, "completed") == 0, lambda s, k: g.get(s, "taken") >= 0,
                                      lambda s, k: R(eng.getattr(s, w.driver, "cost")[0][1]) == w.COST(g.get(s, "taken") - 1)]
    run = P.obj(D + "BudgetRun", dict(budget=b))
    for s, v in w.subscribe(run):
        P.ensure(s, "the run ends only when the budget is reached", w.COST(g.get(s, "taken") - 1) >= b)
        P.ensure(s, "one message per step", g.get(s, "emitted") == g.get(s, "taken"))
        P.ensure(s, "completion is reported", g.get(s, "completed") == 1)


@proof("C09", "time run: slots in order without gaps, each with the result complete before its crossing step", D + "TimeRun._start")
def timed(P):
    step, timeout = P.real("step"), P.real("timeout")
    P.assume(z3.And(step > 0, timeout > 0))

    def nxt(w, st, m):
        g = w.g
        el = R(P.eng.getattr(st, m, "elapsed_time")[0][1])
        P.ensure(st, "slots are the multiples of the sampling interval, increasing, without gaps", el == (z3.ToReal(g.get(st, "emitted")) + 1) * step)
        P.ensure(st, "no slot lies past the limit", el <= timeout)
        P.ensure(st, "a slot is reported only when the time has passed it", el <= g.get(st, "elapsed"))
        P.ensure(st, "reported by the step that crossed it", z3.Or(el > g.get(st, "before"), g.get(st, "taken") == 2))
        t = g.get(st, "taken") - 2
        P.ensure(st, "carries the result of the step before", z3.And(R(P.eng.getattr(st, m, "cost")[0][1]) == w.COST(t), toz(num(P.eng.getattr(st, m, "step_no")[0][1])) == w.STEP(t)))
    w = World(P, lambda st: w.g.get(st, "elapsed") < timeout, nxt)
    g = w.g
    run = P.obj(D + "TimeRun", dict(step=step, timeout=timeout, step_no=0, time_elapsed=0))
    f = lambda s, n: num(P.eng.getattr(s, run, n)[0][1])
    em = lambda s: z3.ToReal(g.get(s, "emitted"))
    no = lambda s: toreal(f(s, "step_no"))

    def cands(eng, st):
        def pv(n):
            def c(s, k):
                v = s.frames[st.cur].get(n)
                if not (v is None or isinstance(v, (Opt, SymObj))):
                    return z3.BoolVal(False)
                none = v is None or (v.isnone if isinstance(v, Opt) else False)
                val = v.val if isinstance(v, Opt) else v
                return z3.And(toz(none) == (g.get(s, "taken") == 0), toz(True) if val is None else z3.Implies(z3.Not(toz(none)), val.term == g.get(s, "taken") - 1))
            return c
        cs = [lambda s, k: g.get(s, "completed") == 0, lambda s, k: g.get(s, "taken") >= 0, lambda s, k: toreal(f(s, "time_elapsed")) == g.get(s, "elapsed"),
              lambda s, k: toz(f(s, "step_no")) >= g.get(s, "emitted"), lambda s, k: g.get(s, "emitted") >= 0,
              lambda s, k: z3.Or(no(s) == em(s), (em(s) + 1) * step > timeout), lambda s, k: em(s) * step <= timeout,
              lambda s, k: no(s) * step <= g.get(s, "elapsed"),
              lambda s, k: z3.Implies(g.get(s, "taken") <= 1, toz(f(s, "step_no")) == 0),
              lambda s, k: z3.Or(g.get(s, "taken") <= 1, (no(s) + 1) * step > g.get(s, "elapsed")),
              lambda s, k: g.get(s, "elapsed") >= 0, lambda s, k: z3.Or(g.get(s, "taken") <= 2, (no(s) + 1) * step > g.get(s, "before")), lambda s, k: z3.Implies(g.get(s, "taken") <= 1, no(s) == 0),
              lambda s, k: toz(f(s, "step_no")) == toz(f(st, "step_no")) + k, lambda s, k: g.get(s, "taken") == g.get(st, "taken")] + [pv(n) for n, v in st.frames[st.cur].items() if v is None and not n.startswith("__")]
        return cs
    P.eng.loop_inv = cands
    P.eng.inv_for = True
    for s, v in w.subscribe(run):
        P.ensure(s, "the run ends only when the time is used up", g.get(s, "elapsed") >= timeout)
        P.ensure(s, "every slot up to the limit was reported", z3.Or(g.get(s, "taken") <= 1, (em(s) + 1) * step > timeout))
        P.ensure(s, "completion is reported", g.get(s, "completed") == 1)


@proof("C09", "step run: exactly the requested number of steps, one message each", D + "StepsRun.create_job")
def steps(P):
    n = P.int("steps", 0)
    w = World(P, lambda st: True, lambda *a: None)
    g = w.g
    job = Ghost(P, maps=z3.IntVal(0))

    def rng(e, st, a, kw, node):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return [(st, SpecObj({"pipe": UFun(lambda e2, s2, ops: [(s2, SpecObj({"count": sub(hi, 0) if len(a) == 1 else hi, "lo": lo, "ops": list(ops)}, "observable"))], "pipe")}, "range"))]
    P.eng.contracts["lib:rx.range"] = rng
    P.eng.contracts["lib:rx.operators.map"] = lambda e, st, a, kw, node: [(st, SpecObj({"map": a[0]}, "map operator"))]
    run = P.obj(D + "StepsRun", dict(steps=n))
    for s, ob in P.call(P.method(run, "create_job"), [run, w.driver]):
        # contract of rx: range(a, n) emits n - a values (first argument 0), map calls its function once per value, in order
        if not isinstance(ob, SpecObj) or "count" not in ob.attrs or any("map" not in o.attrs for o in ob.attrs["ops"]):
            raise Unsupported("job of another form")
        P.ensure(s, "creating the job takes no step", g.get(s, "taken") == 0)
        P.ensure(s, "as many values as requested steps", z3.And(toz(num(ob.attrs["count"])) - toz(num(ob.attrs["lo"])) == n))
        t0 = g.get(s, "taken")
        cur = [(s, z3.Int("value"))]
        for o in ob.attrs["ops"]:
            cur = [x for s2, v in cur for x in P.call(o.attrs["map"], [v], st=s2)]
        for s2, v in cur:
            P.ensure(s2, "one step per value", g.get(s2, "taken") == t0 + 1)
            P.ensure(s2, "its message is passed on", isinstance(v, SymObj))
            if isinstance(v, SymObj):
                P.ensure(s2, "the message of that step", v.term == t0)


@proof("C09", "every driver class counts its steps one by one", D + "StepCountingDriver.__init__")
def counting(P):
    eng = P.eng
    g = Ghost(P, calls=z3.IntVal(0))
    k0 = P.int("k0", 0)
    me = P.obj(ClassVal("Subclass", None, [], {}, None), dict(step_no=k0))

    def step(st, args):
        P.ensure(st, "the step runs on the driver itself", args[0] == me)
        g.set(st, "calls", g.get(st, "calls") + 1)
        P.ensure(st, "the step sees the number of earlier steps", toz(eng.getattr(st, me, "step_no")[0][1]) == k0)
        return Tok(z3.Int("RESULT"))
    cls = P.obj(ClassVal("type", None, [], {}, None), dict(next_step=METHOD(step)))
    for s, _ in P.call(D + "StepCountingDriver.__init__", [cls, "Subclass", (), P.dct([("next_step", METHOD(step))])]):
        f = s.heap[cls.addr].fields["next_step"]
        for s2, v in P.call(f, [me], st=s):
            P.ensure(s2, "the class's own step runs once", g.get(s2, "calls") == 1)
            P.ensure(s2, "the step number grows by one", toz(eng.getattr(s2, me, "step_no")[0][1]) == k0 + 1)
            P.ensure(s2, "the step's result is passed on", isinstance(v, Tok) and z3.is_true(z3.simplify(v.t == z3.Int("RESULT"))))


@proof("C09", "a class that does not define the step keeps the inherited counting one", D + "StepCountingDriver.__init__")
def counting2(P):
    cls = P.obj(ClassVal("type", None, [], {}, None), {})
    for s, _ in P.call(D + "StepCountingDriver.__init__", [cls, "Subclass", (), P.dct([("other", 1)])]):
        P.ensure(s, "nothing is replaced", not s.heap[cls.addr].fields)


@proof("C09", "a step runs the algorithm once and reports its state afterwards", D + "Driver.next_step")
def next_step(P):
    drv = P.get(D + "Driver")
    g = Ghost(P, steps=z3.IntVal(0))
    c0, c1, k = P.real("cost0"), P.real("cost1"), P.int("step_no", 0)
    d = P.obj(drv, dict(cost=c0, step_no=k, finished=False, max_budget=None))
    ad = P.obj("algorithms.base.model:ProgressMessageAdapter", dict(driver=d))
    P.eng.setattr(P.st, d, "message_adapter", ad)

    def step(e, st, args, kw, node):
        g.set(st, "steps", g.get(st, "steps") + 1)
        e.setattr(st, d, "cost", c1)
        return [(st, None)]
    P.eng.contracts[D + "Driver.step"] = step
    for s, m in P.call(P.method(d, "next_step"), [d]):
        P.ensure(s, "one step of the algorithm", g.get(s, "steps") == 1)
        P.ensure(s, "cost after the step", R(fld(P, m, "cost", s)) == c1)
        P.ensure(s, "number of the step", toz(fld(P, m, "step_no", s)) == k)


@proof("C09", "time messages carry the slot and the result's own step and cost", "algorithms.base.model:TimeProgressMessage.__init__")
def timemsg(P):
    t, c, k = P.real("t"), P.real("c"), P.int("k")
    pm = P.obj("algorithms.base.model:ProgressMessage", dict(cost=c, step_no=k))
    for s, m in P.call("algorithms.base.model:TimeProgressMessage", [t, pm]):
        P.ensure(s, "slot", R(fld(P, m, "elapsed_time", s)) == t)
        P.ensure(s, "step and cost", z3.And(R(fld(P, m, "cost", s)) == c, toz(fld(P, m, "step_no", s)) == k))


W = "simulation.worker:"


class Bench:
    """a simulation to be run: a driver that has finished populations, a problem with any number of objectives, a store"""

    def __init__(self, P, params, check):
        self.P, eng = P, P.eng
        I, Rl = z3.IntSort(), z3.RealSort()
        self.M = P.int("M", 1)
        self.POP, self.OBJ, self.COST = P.fn1("POPULATION", I, Vec), P.fn1("OBJECTIVE", I, Rl, Rl), P.fn1("COSTNOW", I, Rl)
        t = z3.Int("t!pop")
        P.fact(z3.ForAll([t], VLEN(self.POP(t)) >= 0, patterns=[self.POP(t)]))
        # an individual is an opaque value, stood for by a number
        self.fits = P.lst(Seq(self.M, lambda j: UFun(lambda e, s, a: [(s, self.OBJ(toz(j), toz(a[0])))], "objective")))
        self.problem = P.obj(ClassVal("Module", None, [], {}, None), dict(fitnesses=self.fits))
        self.g = g = Ghost(P, version=z3.IntVal(0), stored=z3.IntVal(0))
        drv = P.get(D + "Driver")
        self.driver = P.obj(drv, dict(cost=self.COST(z3.IntVal(0)), step_no=0, finished=False, max_budget=None))
        eng.contracts[D + "Driver.finalized_population"] = lambda e, st, a, kw, node: [(st, Seq.ofvec(self.POP(g.get(st, "version"))))]
        self.sim = P.obj("simulation.model:SimulationCase", dict(params=P.dct(params), problem_name=P.str("PROBLEM"), algorithm_name=P.str("ALGORITHM")))
        eng.contracts["lib:path"] = lambda e, st, a, kw, node: [(st, Opaque("path"))]

        def store(st, args):
            res, name = args[0], args[1]
            v = g.get(st, "version")
            check(self, st, name)
            pop = eng.seq_of(fld(P, res, "population", st), st)
            P.ensure(st, "stored points: the driver's final population", z3.And(toz(pop.n) == VLEN(self.POP(v))))
            i, j = eng.fresh_int("i"), eng.fresh_int("j")
            x = st.copy()
            x.assume(z3.And(0 <= i, i < VLEN(self.POP(v)), 0 <= j, j < self.M))
            P.ensure(x, "stored points: each as it is", R(pop.get(i)) == VGET(self.POP(v), i))
            fs = eng.seq_of(fld(P, res, "fitnesses", st), x)
            P.ensure(x, "stored objectives: one row per point", toz(fs.n) == VLEN(self.POP(v)))
            row = eng.seq_of(fs.get(i), x)
            P.ensure(x, "stored objectives: one value per objective", toz(row.n) == self.M)
            P.ensure(x, "stored objectives: those of the point, in the problem's order", R(row.get(j)) == self.OBJ(j, VGET(self.POP(v), i)))
            P.ensure(st, "stored cost: the driver's", R(dget(P, st, fld(P, res, "additional_data", st), "cost")) == self.COST(v))
            g.set(st, "stored", g.get(st, "stored") + 1)
            return Opaque("path")
        self.made = []

        def serializer(e, st, a, kw, node):
            P.ensure(st, "results are stored under the simulation that ran", a[0] == self.sim)
            self.made.append(1)
            return [(st, SpecObj({"store": METHOD(store)}, "serializer"))]
        eng.contracts["simulation.serializer:Serializer"] = serializer
        # contract of rx: do_action calls its functions with the messages (completion) of the source, in order
        eng.contracts["lib:rx.operators.do_action"] = lambda e, st, a, kw, node: [(st, SpecObj({"next": a[0] if a else kw.get("on_next"), "done": kw.get("on_completed", a[2] if len(a) > 2 else None)}, "operator"))]

    def advance(self, st):
        g = self.g
        g.set(st, "version", g.get(st, "version") + 1)
        self.P.eng.setattr(st, self.driver, "cost", self.COST(g.get(st, "version")))

    def observable(self, source, ops=()):
        """source(st) -> [(state, [events])], an event is ("next", message) or ("done",)"""
        P = self.P

        def play(e, st, sink):
            cur = [(st, None)]
            for kind, action in source:
                nxt = []
                for s, _ in cur:
                    m = action(s)
                    outs = [(s, None)]
                    for o in list(ops) + ([sink] if sink is not None else []):
                        f = o.attrs["next" if kind == "next" else "done"]
                        if f is not None:
                            outs = [x for s2, _ in outs for x in P.call(f, [m] if kind == "next" else [], st=s2)]
                    nxt += outs
                cur = nxt
            return [(s, Opaque("subscription")) for s, _ in cur]

        def pipe(e, st, a):
            if any(not isinstance(o, SpecObj) or "next" not in o.attrs for o in a):
                raise Unsupported("operator of another kind")
            return [(st, self.observable(source, list(ops) + list(a)))]

        def subscribe(e, st, a, kw=None):
            return play(e, st, SpecObj({"next": a[0] if a else None, "done": a[2] if len(a) > 2 else None}, "observer"))
        return SpecObj({"pipe": UFun(pipe, "pipe"), "subscribe": UFun(subscribe, "subscribe"), "run": UFun(lambda e, st, a: play(e, st, None), "run")}, "observable")


@proof("C09", "budget worker: every budget in turn, its result stored under it with the population, objectives and cost reached then", W + "BudgetWorker.run_driver, " + W + "BudgetWorker.budgets")
def budget_worker(P):
    n = P.int("budgets", 1)
    B = P.ints("BUDGET", n)
    g = None

    def check(w, st, name):
        P.ensure(st, "a result is stored once per budget", w.g.get(st, "stored") == w.g.get(st, "version") - 1)
        P.ensure(st, "named after the budget", P.eng.eq(st, name, P.call(Builtin("str"), [B.get(w.g.get(st, "version") - 1)], st=st)[0][1]))
    w = Bench(P, [("budgets", P.lst(B))], check)
    g = w.g
    K = P.eng.contracts

    def job(e, st, a, kw, node):
        run, driver = a[0], a[-1]
        k = g.get(st, "version")
        P.ensure(st, "the driver of the worker is run", driver == w.driver)
        P.ensure(st, "up to the next budget", toz(num(e.getattr(st, run, "budget")[0][1])) == B.get(k))
        P.ensure(st, "no driver stops before the last budget", toz(num(e.getattr(st, driver, "max_budget")[0][1])) == B.get(n - 1))
        msg = SpecObj({"cost": P.real("MSGCOST"), "step_no": P.int("MSGSTEP")}, "message")
        return [(st, w.observable([("next", lambda s: msg), ("done", lambda s: w.advance(s))]))]
    K[D + "BudgetRun.create_job"] = job
    i = z3.Int("i!bw")

    def cands(eng, st):
        out = [lambda s, k: g.get(s, "version") == k, lambda s, k: g.get(s, "stored") == k]
        for x in st.frames[st.cur].values():
            if isinstance(x, ListRef) and not isinstance(x, (DictRef, SetRef)):
                out += [lambda s, k, x=x: toz(P.seq(x, s).n) == k, lambda s, k, x=x: listed(s, x, k)]
        return out

    def listed(s, x, k):
        sq = P.seq(x, s)
        if sq.is_lit and sq.n == 0:
            return True
        x = sq.get(i)
        if not (isinstance(x, tuple) and len(x) == 2):
            raise Unsupported("results of another form")
        c, p = x
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(R(c) == w.COST(i + 1), SEQV(p) == w.POP(i + 1))))
    P.eng.loop_inv = cands
    P.eng.inv_for = True
    o = P.obj(W + "BudgetWorker", dict(simulation=w.sim, simulation_no=0))
    logger = SpecObj({x: METHOD(lambda st, a: None) for x in ("debug", "info", "warning", "exception")}, "logger")
    for s, v in P.call(P.method(o, "run_driver"), [o, w.driver, w.problem, logger]):
        P.ensure(s, "every budget was run and stored", z3.And(g.get(s, "version") == n, g.get(s, "stored") == n))
        P.ensure(s, "one result per budget is returned", toz(P.seq(v, s).n) == n)
        P.ensure(s, "each with the cost and population reached at that budget", listed(s, v, n))


@proof("C09", "time worker: every reported slot is stored once under its time, with the population, objectives and cost the driver has then", W + "TimeWorker.run_driver")
def time_worker(P):
    step, timeout = P.int("sampling"), P.int("timeout")
    SLOT = P.fn1("SLOT", z3.IntSort(), z3.IntSort())

    def check(w, st, name):
        g = w.g
        P.ensure(st, "a result is stored once per slot", g.get(st, "stored") == g.get(st, "version") - 1)
        P.ensure(st, "named after the slot", P.eng.eq(st, name, P.call(Builtin("str"), [SLOT(g.get(st, "version"))], st=st)[0][1]))
    w = Bench(P, [("timeout", timeout), ("sampling_interval", step)], check)
    g = w.g
    played = []

    def job(e, st, a, kw, node):
        run, driver = a[0], a[-1]
        P.ensure(st, "the driver of the worker is run", driver == w.driver)
        f = lambda n: R(e.getattr(st, run, n)[0][1])
        P.ensure(st, "with the sampling interval and the limit of the simulation", z3.And(f("step") == z3.ToReal(step), f("timeout") == z3.ToReal(timeout)))

        def slot(s):
            w.advance(s)
            played.append(1)
            return SpecObj({"elapsed_time": SLOT(g.get(s, "version")), "cost": P.real("MSGCOST"), "step_no": P.int("MSGSTEP")}, "message")
        return [(st, w.observable([("next", slot), ("next", slot)]))]
    P.eng.contracts[D + "TimeRun.create_job"] = job
    v0 = P.int("v0", 0)         # any number of slots reported before
    P.assume(SLOT(v0 + 1) < SLOT(v0 + 1 + 1))     # slots are reported in increasing order (proved above)
    g.set(P.st, "version", v0)
    g.set(P.st, "stored", v0)
    o = P.obj(W + "TimeWorker", dict(simulation=w.sim, simulation_no=0))
    logger = SpecObj({x: METHOD(lambda st, a: None) for x in ("debug", "info", "warning", "exception")}, "logger")
    for s, v in P.call(P.method(o, "run_driver"), [o, w.driver, w.problem, logger]):
        P.ensure(s, "the run is made", len(played) >= 2)
        P.ensure(s, "every slot is stored", g.get(s, "stored") == v0 + 2)
        sq = P.seq(v, s)
        P.ensure(s, "one result per slot is returned", toz(sq.n) == 2)
        for q in (0, 1):
            c, p = sq.get(q)
            P.ensure(s, "each with the cost and population of the driver then", z3.And(R(c) == w.COST(v0 + q + 1), SEQV(p) == w.POP(v0 + q + 1)))
