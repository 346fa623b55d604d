"""C14: selections expand to the requested runs; preparation binds what was selected.
Option values and names are strings of any content; the registry is a sequence of names of any length."""
from .lib import *
from .c17 import tok

F = "simulation.factory:"
RC = "simulation.run_config:"
MODEL = "simulation.model:"
CASE = z3.Function("CASE", STR, STR, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def setglobal(P, dotted, v):
    """an arbitrary value for a module level name of /repo"""
    P.get(dotted)
    mod, name = dotted.split(":")
    P.eng.modules[mod].env[name] = v
    P.eng.modules[mod].pending.pop(name, None)


def args_dict(P, **over):
    return P.dct([(k, v) for k, v in over.items()])


def inrange(eng, s, sq, cond):
    k = bvar("w")
    return z3.Exists([k], z3.And(0 <= k, k < toz(sq.n), cond(k)))


def selected(P, s, v, n, name, listed):
    """v is the sequence of name(k) with listed(k), k < n, in order"""
    sq = P.seq(v, s)
    if sq.kind != "filter":
        raise Unsupported("selection of another form")
    n0, cond, elt, _ = sq.parts
    P.ensure(s, "chosen from all registered names", cmp("==", n0, n))
    P.ensure(s, "exactly the listed names are chosen", forall(n, lambda k: Iff(cond(k), listed(k))))
    P.ensure(s, "as registered, in registered order", forall(n, lambda k: Implies(listed(k), toz(P.eng.eq(s, elt(k), name(k))))))


def parse(what, opt, fname):
    @proof("C14", "%s: all when none are named, otherwise exactly those listed, without regard to case, any registry and any option text" % fname, F + fname)
    def p(P):
        n = P.int("n", 0)
        names = P.strs("NAME", n)
        setglobal(P, RC + what, P.lst(names))
        text = P.str("OPTION")
        for v0 in (None, "", text):
            st = P.st.copy()
            for s, v in P.call(F + fname, [P.dct([(opt, v0)], st)], st=st):
                if v0 is None or v0 == "":
                    every(P, s, v, names)
                    continue
                for t, empty in P.eng.fork(s.copy(), v0 == z3.StringVal("")):
                    if empty:
                        every(P, t, v, names)
                        continue
                    low, sep = LOWER(v0), z3.StringVal(",")
                    listed = lambda k: inrange(P.eng, t, Seq(SPLITN(low, sep), None), lambda j: SPLITAT(low, sep, j) == LOWER(names.get(k)))
                    selected(P, t, v, n, names.get, listed)
    p.__name__ = "parse_" + what
    return p


def every(P, s, v, names):
    sq = P.seq(v, s)
    P.ensure(s, "all of them", And(cmp("==", sq.n, names.n), forall(names.n, lambda k: toz(P.eng.eq(s, sq.get(k), names.get(k))))))


parse("problems", "--problem", "parse_problems")
parse("algorithms", "--algo", "parse_algorithms")


@proof("C14", "budgets are the listed integers in ascending order, any text", F + "parse_budgets")
def budgets(P):
    text = P.str("BUDGETS")
    INT = z3.Function("INT", STR, z3.IntSort())
    P.eng.trusted.add("int(text) is the number a decimal text denotes")
    P.eng.contracts["lib:int"] = lambda e, s, a, kw, node: [(s, INT(a[0]))] if is_str(a[0]) and not isinstance(a[0], str) and len(a) == 1 else (_ for _ in ()).throw(Unsupported("int"))
    sep = z3.StringVal(",")
    for s, v in P.call(F + "parse_budgets", [P.dct([("<budget>", text)])]):
        sq = P.seq(v, s)
        n = SPLITN(text, sep)
        P.ensure(s, "one budget for every listed number", cmp("==", sq.n, n))
        if sq.kind != "perm":
            raise Unsupported("budgets of another form")
        base, pm, inv = sq.parts
        P.ensure(s, "the listed numbers, each once", forall(n, lambda k: And(pm(k) >= 0, pm(k) < n, toz(sq.get(k)) == INT(SPLITAT(text, sep, pm(k))), inv(k) >= 0, inv(k) < n, pm(inv(k)) == k)))
        i, j = bvar(), bvar()
        P.ensure(s, "ascending", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), toz(sq.get(i)) <= toz(sq.get(j)))))


def product_is(P, s, v, A, B, N, what, elem):
    """v = [elem(a, b, r) for a in A for b in B for r in range(N)] in this order"""
    sq = P.seq(v, s)

    def walk(q, depth, ix):
        """flattened product -> list of (bounds so far, element)"""
        if q.kind == "flat":
            n, cond, inner = q.parts
            if cond is not None:
                raise Unsupported("filtered product")
            v = bvar("x")
            return walk(inner(v), depth + 1, ix + [(v, n)])
        v = bvar("x")
        return ix + [(v, q.n)], q.get(v)
    ix, el = walk(sq, 0, [])
    if len(ix) != 3:
        raise Unsupported("product of another depth")
    import itertools
    ns = [toz(A.n), toz(B.n), z3.If(N > 0, N, 0)]

    def claim(o):
        """the loops run over problems, algorithms and numbers in the order o"""
        vs = [None] * 3
        for d, w in enumerate(o):
            vs[w] = ix[d][0]
        rng = [z3.And(0 <= ix[d][0], ix[d][0] < ns[w]) for d, w in enumerate(o)]
        out = []
        for d, w in enumerate(o):
            c = toz(cmp("==", ix[d][1], ns[w]))
            out.append(("%s: %s" % (what, ["every selected problem", "every selected algorithm", "N times each"][w]), z3.ForAll([ix[k][0] for k in range(d)], z3.Implies(z3.And(*rng[:d]), c)) if d else c))
        out.append(("%s: each as selected, its own number" % what, z3.ForAll([x for x, _ in ix], z3.Implies(z3.And(*rng), toz(elem(el, A.get(vs[0]), B.get(vs[1]), vs[2]))))))
        return out
    orders = list(itertools.permutations(range(3)))
    for o in orders:
        if all(P.eng.prove(P.eng.hyps(s), f, 2000) for _, f in claim(o)):
            break
    else:
        o = orders[0]
    for nm, f in claim(o):
        P.ensure(s, nm, f)


@proof("C14", "exactly N simulations for every selected problem and algorithm, each with its own number, the directory and the parameters asked for; any selection, any N", F + "create_simulation")
def create(P):
    np_, na = P.int("NP", 0), P.int("NA", 0)
    A, B = P.strs("PROBLEM", np_), P.strs("ALGO", na)
    A0, B0 = P.strs("ALLPROBLEMS", P.int("NP0", 0)), P.strs("ALLALGOS", P.int("NA0", 0))
    setglobal(P, RC + "problems", P.lst(A0))
    setglobal(P, RC + "algorithms", P.lst(B0))
    N, REN, BUD = P.int("N"), P.int("RENICE"), P.int("PARAM")
    INT = z3.Function("INT", STR, z3.IntSort())
    ntext = P.str("NTEXT")
    P.fact(INT(ntext) == N)
    P.eng.trusted.add("int(text) is the number a decimal text denotes")
    P.eng.contracts["lib:int"] = lambda e, s, a, kw, node: [(s, INT(a[0]))] if is_str(a[0]) and len(a) == 1 else (_ for _ in ()).throw(Unsupported("int"))
    P.eng.contracts[F + "parse_problems"] = lambda e, s, a, kw, node: [(s, P.lst(A, s))]
    P.eng.contracts[F + "parse_algorithms"] = lambda e, s, a, kw, node: [(s, P.lst(B, s))]
    DIRN = z3.Function("DIRN", STR, z3.IntSort())
    ddir = P.get("simulation.serialization:RESULTS_DIR")

    def case(e, s, a, kw, node):
        names = ["problem_name", "algorithm_name", "run_id", "renice", "results_dir", "id"]
        kw = dict(kw)
        for x, y in zip(names, a):
            kw[x] = y
        if set(kw) != {"problem_name", "algorithm_name", "run_id", "renice", "results_dir", "budgets"} or not isinstance(kw["renice"], Tok) or not isinstance(kw["budgets"], Tok) or not (isinstance(kw["results_dir"], str) or is_str(kw["results_dir"])):
            raise Unsupported("simulation with other arguments")
        return [(s, Tok(CASE(strz(kw["problem_name"]), strz(kw["algorithm_name"]), toz(kw["run_id"]), kw["renice"].t, DIRN(strz(kw["results_dir"])), kw["budgets"].t)))]
    P.eng.contracts[MODEL + "SimulationCase"] = case
    for d in (None, "", P.str("DIROPT")):
        st = P.st.copy()
        ren, bud = Tok(REN), Tok(BUD)
        args = P.dct([("--problem", P.str("OP")), ("--algo", P.str("OA")), ("--renice", ren), ("--dir", d), ("-N", ntext)], st)
        params = P.dct([("budgets", bud)], st)
        for s, v in P.call(F + "create_simulation", [args, params], st=st):
            if d is None or d == "":
                want = lambda dd: DIRN(z3.StringVal(ddir))
            else:
                want = lambda dd: z3.If(d == z3.StringVal(""), DIRN(z3.StringVal(ddir)), DIRN(d))
            product_is(P, s, v, A, B, N, "dir %s" % ("default" if not is_z3(d) else "given"), lambda el, p, a, r: el.t == CASE(p, a, r, REN, want(d), BUD))


def intc(P):
    INT = z3.Function("INT", STR, z3.IntSort())
    P.eng.trusted.add("int(text) is the number a decimal text denotes")
    P.eng.contracts["lib:int"] = lambda e, s, a, kw, node: [(s, INT(a[0]))] if is_str(a[0]) and not isinstance(a[0], str) and len(a) == 1 else (_ for _ in ()).throw(Unsupported("int"))
    return INT


@proof("C14", "the kind of run asked for decides the worker and the parameters of all its simulations", F + "resolve_configuration")
def kinds(P):
    INT = intc(P)
    seen = {}

    def create(e, s, a, kw, node):
        args, params = (list(a) + [kw.get("args"), kw.get("params")])[:2] if len(a) == 2 else (kw.get("args", a[0] if a else None), kw.get("params"))
        if not isinstance(params, DictRef) or not isinstance(args, DictRef):
            raise Unsupported("create_simulation")
        seen[id(s)] = None
        return [(s, ("SIMULATIONS", args, dict(s.heap[params.addr].items)))]
    P.eng.contracts[F + "create_simulation"] = create
    buds = tok(P, "BUDGETLIST")
    P.eng.contracts[F + "parse_budgets"] = lambda e, s, a, kw, node: [(s, buds)]
    BW, TW = P.get("simulation.worker:BudgetWorker"), P.get("simulation.worker:TimeWorker")
    b, t = P.bool("BUDGET"), P.bool("TIME")
    tt, ts = P.str("TIMEOUT"), P.str("STEP")
    args = P.dct([("budget", b), ("time", t), ("<budget>", P.str("BT")), ("<timeout>", tt), ("<step>", ts)])
    P.assume(z3.Xor(b, t))
    for s, v in P.call(F + "resolve_configuration", [args]):
        if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[1], tuple):
            P.ensure(s, "a worker and its simulations", False)
            continue
        w, (_, a2, params) = v
        P.ensure(s, "the arguments are passed on", isinstance(a2, DictRef) and a2.addr == args.addr)
        if w is BW:
            P.ensure(s, "a budget run was asked for", b)
            P.ensure(s, "its budgets", set(params) == {"budgets"} and P.eng.eq(s, params["budgets"], buds))
        else:
            P.ensure(s, "a timed run was asked for", And(t, w is TW))
            P.ensure(s, "its timeout and interval", And(set(params) == {"timeout", "sampling_interval"}, *([toz(params["timeout"]) == INT(tt), toz(params["sampling_interval"]) == INT(ts)] if set(params) == {"timeout", "sampling_interval"} else [])))


def same_name(a, b):
    """keys made of the same names in the same way (the names of a selection are different from each other)"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same_name(x, y) for x, y in zip(a, b))
    if not is_str(a) or not is_str(b):
        raise Unsupported("key of another kind")
    return str_eq(a, b) is True


class Registry:
    """the configuration tables, the initialisation functions and the modules, known only by what is looked up in them"""

    def __init__(self, P, algo, problem, rest, tables=(), inits=(), overlap=True):
        """rest: names of the inner algorithms; tables / inits: layers that may be present, as (name, key)"""
        self.P = P
        self.layers = {}
        self.entries = []
        HAS = {}
        for nm, key in tables:
            has = P.bool("HAS_" + nm)
            d = P.dct([("setting", Tok(P.int("VALUE_" + nm))), ("only_" + nm, Tok(P.int("OWN_" + nm)))])
            self.entries.append((d, P.st.heap[d.addr]))
            HAS[nm] = has
            self.layers[nm] = (key, has, d)
        self.has = HAS
        base = [(nm, k) for nm, k in tables if isinstance(k, tuple) is False or isinstance(k[1], tuple)]
        cust = [(nm, k) for nm, k in tables if (nm, k) not in base]

        def table(rows):
            def find(key):
                hit = None
                for nm, k in rows:
                    if same_name(k, key):
                        hit = nm
                return hit

            def get(key):
                nm = find(key)
                if nm is None:
                    return Opaque("no entry")
                return self.layers[nm][2]

            def has(key):
                nm = find(key)
                return False if nm is None else HAS[nm]
            return DictRef(P.eng.alloc(P.st, HeapDict((), None, dict(get=get, has=has))))
        setglobal(P, RC + "algo_base", table(base))
        setglobal(P, RC + "cust_base", table(cust))
        self.calls = Ghost(P, inits=())
        self.inits = {nm: key for nm, key in inits}
        for nm, _ in inits:
            HAS[nm] = P.bool("HAS_" + nm)
        self.pm = None

        def getattr_(e, s, a, kw, node):
            if isinstance(a[0], ModuleVal) and a[0].name == "simulation.run_config" and is_str(a[1]) and len(a) == 2:
                hit = None
                for nm, k in self.inits.items():
                    if same_name(k, a[1]):
                        hit = nm
                if hit is None:
                    e.safety_raise(s, "AttributeError", node)
                    return []
                e.safety(s, HAS[hit], "AttributeError", node)
                if s.dead():
                    return []

                def run(e2, s2, args, hit=hit):
                    self.calls.set(s2, "inits", self.calls.get(s2, "inits") + ((hit, args[0].addr, args[1]),))
                    for n_, v_ in (("setting", Tok(P.int("VALUE_" + hit))), ("only_" + hit, Tok(P.int("OWN_" + hit)))):
                        e2.dict_set(s2, args[0], n_, v_)
                    return [(s2, None)]
                return [(s, UFun(run, "initialisation"))]
            from pydv.builtins_model import TABLE
            r = TABLE["getattr"](e, s, a, kw, node)
            return r if isinstance(r, list) else [(s, r)]
        P.eng.contracts["lib:getattr"] = getattr_

    def untouched(self, s):
        return And(*[s.heap.get(d.addr) is h for d, h in self.entries])


def prep_names(P, k):
    algo, problem = P.str("ALGO"), P.str("PROBLEM")
    rest = [P.str("INNER%d" % i) for i in range(k)]
    pre = [P.str("OUTER%d" % i) for i in range(1)]
    for x in [algo, problem] + rest + pre:
        P.assume(x != z3.StringVal(""))
    return algo, problem, rest, pre


def layer_proof(kind, k):
    """kind: 'tables' or 'inits'; k: number of inner algorithms"""
    @proof("C14", "more specific %s override more general, none is left out and none of another run is used; %s" % ("settings" if kind == "tables" else "initialisations", "no inner algorithm" if k == 0 else "%d inner" % k), F + "prepare_with_driver",
           bounded="number of algorithms in the selection; the settings of a layer are one that all have and one of its own")
    def p(P):
        algo, problem, rest, pre = prep_names(P, k)
        sub = tuple(rest)
        tabs, ins = [], []
        if kind == "tables":
            tabs = [("a", algo), ("as", (algo, sub)), ("ap", (algo, problem)), ("asp", (algo,) + sub + (problem,))]
            if k == 0:
                tabs = [t for t in tabs if t[0] != "asp"]
        else:
            i0 = scat("init_alg___", algo)
            isub = scat(scat(i0, "__"), joined(rest))
            ins = [("i", i0), ("is", isub), ("ip", scat(scat(i0, "____"), problem)), ("isp", scat(scat(isub, "____"), problem))]
            if k == 0:
                ins = [("i", i0), ("ip", scat(scat(i0, "____"), problem))]
        reg = Registry(P, algo, problem, rest, tabs, ins)
        dims, fits, cls, pop, adapter = (tok(P, x) for x in ("DIMS", "FITNESSES", "CLASS", "POPULATION", "ADAPTER"))
        pm = SpecObj({"dims": dims, "fitnesses": fits}, "problem module")

        def one(want, res):
            def h(e, s, a, kw, node):
                P.ensure(s, "%s is that of the selection" % want[0], And(len(a) == len(want) - 1, not kw, *[P.eng.eq(s, x, y) for x, y in zip(a, want[1:])]))
                return [(s, res)]
            return h
        P.eng.contracts[F + "prepare_algorithm_class"] = one(("the class", algo), cls)
        P.eng.contracts[F + "prepare_problem_class"] = one(("the problem", problem), pm)
        P.eng.contracts["evotools.random_tools:show_conf"] = lambda e, s, a, kw, node: [(s, Opaque("str"))]
        P.eng.contracts["evotools.random_tools:show_partial"] = lambda e, s, a, kw, node: [(s, Opaque("str"))]
        size = P.int("SIZE")
        setglobal(P, RC + "DEFAULT_POPULATION_SIZE", size)
        P.eng.contracts["evotools.ea_utils:gen_population"] = lambda e, s, a, kw, node: [(s, pop)] if P.eng.eq(s, a[0], size) is True and a[1] is dims else [(s, tok(P, "ANOTHERPOPULATION"))]
        drv = None
        alld, pos = pre + [algo] + rest, len(pre)

        def adapt(e, s, a, kw, node):
            al = P.seq(a[1], s).items()
            P.ensure(s, "the adapter is that of the selection", And(P.eng.eq(s, a[0], algo), len(al) == len(alld), *([P.eng.eq(s, x, y) for x, y in zip(al, alld)] + [a[2] == pos])))
            return [(s, adapter)]
        P.eng.contracts[F + "prepare_message_adapter_class"] = adapt
        if k:
            drv = Partial(Opaque("class of the inner algorithm"), [], {})
        P.eng.merge_ok = False
        args = [algo, problem, drv, P.lst(Seq.lit(alld)), pos]
        for s, v in P.call(F + "prepare_with_driver", args):
            ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Partial)
            P.ensure(s, "a factory and the problem's module", ok)
            if not ok:
                continue
            f, kw = v[0], v[0].kwargs
            P.ensure(s, "the factory makes the selected class", And(f.func is cls, len(f.args) == 0, v[1] is pm))
            P.ensure(s, "with the problem's bounds and objectives", And(kw.get("dims") is dims, kw.get("fitnesses") is fits))
            P.ensure(s, "with a population of the configured size in those bounds", kw.get("population") is pop)
            P.ensure(s, "with the selected inner algorithm and its adapter, or none", And(kw.get("driver") is drv, kw.get("driver_message_adapter_factory") is adapter) if k else And("driver" not in kw, "driver_message_adapter_factory" not in kw))
            names = [nm for nm, _ in (tabs or ins)]
            above = {"a": ("as", "ap", "asp"), "as": ("asp",), "ap": ("asp",), "asp": (), "i": ("is", "ip", "isp"), "is": ("isp",), "ip": ("isp",), "isp": ()}
            for nm in names:
                own = kw.get("only_" + nm)
                P.ensure(s, "layer %s is applied exactly when it is there" % nm, Iff(reg.has[nm], own is not None))
                if own is not None:
                    P.ensure(s, "layer %s is applied as configured" % nm, own.t == P.int("OWN_" + nm))
            got = kw.get("setting")
            there = [nm for nm in names if kw.get("only_" + nm) is not None]
            if there:
                top = [nm for nm in there if not any(x in there for x in above[nm])]
                P.ensure(s, "the most specific value wins", Or(*[got.t == P.int("VALUE_" + nm) for nm in top]) if got is not None else False)
            extra = set(kw) - {"dims", "fitnesses", "population", "driver", "driver_message_adapter_factory", "setting"} - {"only_" + nm for nm in names}
            P.ensure(s, "nothing else is set", not extra)
            P.ensure(s, "initialisations get this run's configuration and the problem's module", all(x[2] is pm for x in reg.calls.get(s, "inits")))
            P.ensure(s, "the configuration tables are left as they are", reg.untouched(s))
    p.__name__ = "layers_%s_%d" % (kind, k)
    return p


def joined(xs):
    r = ""
    for i, x in enumerate(xs):
        r = scat(scat(r, "_") if i else r, x)
    return r


for _k in (0, 1, 2):
    layer_proof("tables", _k)
    layer_proof("inits", _k)


def modules(P, known):
    """import_module: known is [(name, module)]; other names may not exist"""
    def imp(e, s, a, kw, node):
        if len(a) != 1 or kw or not is_str(a[0]):
            raise Unsupported("import_module")
        for nm, m in known:
            if str_eq(nm, a[0]) is True:
                return [(s, m)]
        return [(s, SpecObj({"__getattr__": UFun(lambda e2, s2, args: [(s2, tok(P, "ELSEWHERE"))])}, "another module"))]
    P.eng.contracts["lib:importlib.import_module"] = imp


@proof("C14", "the class of an algorithm is the one registered for its name, or of that name in the module of that name", F + "prepare_algorithm_class")
def algclass(P):
    algo, cp, cc = P.str("ALGO"), P.str("CUSTOMPATH"), P.str("CUSTOMCLASS")
    custom = P.bool("CUSTOM")
    setglobal(P, RC + "custom_paths", DictRef(P.eng.alloc(P.st, HeapDict((), None, dict(get=lambda k: (cp, cc), has=lambda k: custom if same_name(k, algo) else False)))))
    CLS = z3.Function("CLASSIN", STR, STR, z3.IntSort())
    P.eng.contracts["lib:importlib.import_module"] = lambda e, s, a, kw, node: [(s, SpecObj({"__getattr__": UFun(lambda e2, s2, args: [(s2, Tok(CLS(strz(a[0]), strz(args[0]))))])}, "module"))]
    for s, v in P.call(F + "prepare_algorithm_class", [algo]):
        P.ensure(s, "the class asked for", v.t == z3.If(custom, CLS(cp, cc), CLS(scat(scat(scat("algorithms.", algo), "."), algo), algo)) if isinstance(v, Tok) else False)


@proof("C14", "the problem is the module of that name", F + "prepare_problem_class")
def probclass(P):
    pr = P.str("PROBLEM")
    m = SpecObj({}, "module of the problem")
    modules(P, [(scat(scat("problems.", pr), ".problem"), m)])
    for s, v in P.call(F + "prepare_problem_class", [pr]):
        P.ensure(s, "that module", v is m)


@proof("C14", "the adapter is that of the next inner algorithm for the outer one, at any place of a selection; without one the combination is refused", F + "prepare_message_adapter_class")
def adapters(P):
    algo = P.str("ALGO")
    n, pos = P.int("n"), P.int("pos")
    P.assume(z3.And(0 <= pos, pos + 1 < n))
    drivers = P.strs("DRIVER", n)
    inner = drivers.get(pos + 1)
    ad = tok(P, "ADAPTER")
    there, has = P.bool("MODULE"), P.bool("ADAPTERTHERE")

    def ga(e, s, args):
        if str_eq(args[0], scat(scat(inner, algo), "MessageAdapter")) is not True:
            return [(s, tok(P, "ELSEWHERE"))]
        return [(s, ad)] if e.safety(s, has, "AttributeError", None) else []

    def imp(e, s, a, kw, node):
        if len(a) != 1 or kw or not is_str(a[0]) or str_eq(a[0], scat(scat("algorithms.", inner), ".message")) is not True:
            return [(s, SpecObj({"__getattr__": UFun(lambda e2, s2, args: [(s2, tok(P, "ELSEWHERE"))])}))]
        return [(s, SpecObj({"__getattr__": UFun(ga)}))] if e.safety(s, there, "ImportError", node) else []
    P.eng.contracts["lib:importlib.import_module"] = imp
    outs, raised = P.call_ex(F + "prepare_message_adapter_class", [algo, P.lst(drivers), pos])
    for s, v in outs:
        P.ensure(s, "the adapter of this pair", And(P.eng.eq(s, v, ad), there, has))
    for s, e in raised:
        P.ensure(s, "refused only when there is none", And(e == "NotViableConfiguration", Not(And(there, has))))


@proof("C14", "an initial population is made only when none is configured, of the configured size, for the problem's bounds", F + "load_init_population")
def initpop(P):
    size, dims, pop, own = P.int("SIZE"), tok(P, "DIMS"), tok(P, "POP"), tok(P, "OWN")
    setglobal(P, RC + "DEFAULT_POPULATION_SIZE", size)
    P.eng.contracts["evotools.ea_utils:gen_population"] = lambda e, s, a, kw, node: [(s, pop if P.eng.eq(s, a[0], size) is True and a[1] is dims else tok(P, "ANOTHER"))]
    for given in (False, True):
        st = P.st.copy()
        d = P.dct([("x", tok(P, "X"))] + ([("population", own)] if given else []), st)
        for s, _ in P.call(F + "load_init_population", [SpecObj({"dims": dims}), d], st=st):
            it = dict(s.heap[d.addr].items)
            P.ensure(s, "the population", And(set(it) == {"x", "population"}, it.get("population") is (own if given else pop), it.get("x") is not None and P.eng.eq(s, it["x"], tok(P, "X")) is True))


@proof("C14", "inner algorithms are prepared first and handed to the next outer one, any depth of nesting", F + "prepare")
def chain(P):
    P.inv_timeout(3000)
    algo, problem = P.str("ALGO"), P.str("PROBLEM")
    sep = z3.StringVal("+")
    n = SPLITN(algo, sep)
    P.fact(n >= 1)
    # FACTORY(k): what preparing the k-th name with FACTORY(k+1) inside gives
    FAC, MOD = P.fn1("FACTORY", z3.IntSort(), z3.IntSort()), P.fn1("MODULE", z3.IntSort(), z3.IntSort())
    name = lambda k: SPLITAT(algo, sep, k)

    def pwd(e, s, a, kw, node):
        names = ["algo", "problem", "driver", "all_drivers", "driver_pos"]
        kw = dict(kw)
        for x, y in zip(names, a):
            kw[x] = y
        pos = toz(kw["driver_pos"])
        al = P.seq(kw["all_drivers"], s)
        d = kw["driver"]
        P.ensure(s, "an algorithm of the selection", And(pos >= 0, pos < n, P.eng.eq(s, kw["algo"], name(pos)), P.eng.eq(s, kw["problem"], problem)))
        P.ensure(s, "the whole selection is known", And(cmp("==", al.n, n), forall(n, lambda k: toz(P.eng.eq(s, al.get(k), name(k))))))
        if d is None:
            P.ensure(s, "the innermost algorithm has nothing inside", pos == n - 1)
        elif isinstance(d, Opt):
            P.ensure(s, "the innermost algorithm has nothing inside", Iff(d.isnone, pos == n - 1))
            P.ensure(s, "the next inner one is inside", Implies(pos < n - 1, toz(d.val) == FAC(pos + 1)))
        else:
            P.ensure(s, "the innermost algorithm has nothing inside", pos != n - 1)
            P.ensure(s, "the next inner one is inside", toz(d) == FAC(pos + 1))
        return [(s, (FAC(pos), MOD(pos)))]
    P.eng.contracts[F + "prepare_with_driver"] = pwd

    def cands(eng, st):
        out = []
        fr = st.frames[st.cur]
        for nm, v in list(fr.items()):
            if v is None or isinstance(v, Opt) or (isinstance(v, z3.ArithRef) and v.is_int()):
                for fn in (FAC, MOD):
                    def c(s, k, nm=nm, fn=fn):
                        x = s.frames[s.cur].get(nm)
                        if x is None:
                            return k == 0
                        if isinstance(x, Opt):
                            return And(Iff(x.isnone, k == 0), Implies(k > 0, toz(x.val) == fn(n - k)))
                        return And(k > 0, toz(x) == fn(n - k))
                    out.append(c)
        return out
    P.eng.loop_inv = cands
    P.eng.inv_for = True
    for s, v in P.call(F + "prepare", [algo, problem]):
        ok = isinstance(v, tuple) and len(v) == 2
        P.ensure(s, "a factory and a module", ok)
        if ok:
            f = v[0]
            P.ensure(s, "the outermost factory", And(Not(f.isnone), toz(f.val) == FAC(z3.IntVal(0))) if isinstance(f, Opt) else f is not None and toz(f) == FAC(z3.IntVal(0)))
            m = v[1]
            P.ensure(s, "and its problem", And(Not(m.isnone), toz(m.val) == MOD(z3.IntVal(0))) if isinstance(m, Opt) else m is not None and toz(m) == MOD(z3.IntVal(0)))


@proof("C14", "writing a configuration to the log leaves it as it is", "evotools.random_tools:show_conf", bounded="configurations with and without an inner algorithm and a population")
def shown(P):
    for drv in (False, True):
        for pop in (False, True):
            st = P.st.copy()
            lst = P.lst(Seq.lit([tok(P, "X0"), tok(P, "X1")]), st)
            d = P.dct([("a", tok(P, "A"))] + ([("driver", Partial(tok(P, "CLASS"), [], {}))] if drv else []) + ([("population", lst)] if pop else []), st)
            h, hl = st.heap[d.addr], st.heap[lst.addr]
            for s, _ in P.call("evotools.random_tools:show_conf", [d], st=st):
                P.ensure(s, "unchanged", And(s.heap[d.addr] is h, s.heap[lst.addr] is hl))


WK = "simulation.worker:SimulationWorker"


@proof("C14", "a worker runs what was prepared for the algorithm and problem of its simulation, hands back the results under its number and stops the driver whether or not the run fails", WK + ".run")
def worker_run(P):
    eng = P.eng
    algo, problem, no = P.str("ALGO"), P.str("PROBLEM"), P.int("NUMBER")
    fp, fr, nv = P.bool("PREPARING_FAILS"), P.bool("RUN_FAILS"), P.bool("NOT_VIABLE")
    g = Ghost(P, log=())
    say = lambda s, x: g.set(s, "log", g.get(s, "log") + (x,))
    results, took = tok(P, "RESULTS"), P.real("CPUTIME")
    pm = SpecObj({}, "module of the problem")
    driver = P.obj("algorithms.base.driver:Driver", dict(cost=P.real("COST"), step_no=P.int("STEP")))
    eng.contracts["algorithms.base.driver:Driver.shutdown"] = lambda e, s, a, kw, node: [(say(s, "shutdown" if a[0] == driver else "another") or s, None)]

    def fails(e, s, cond, node):
        """[state that goes on]; on the condition the call fails as not viable or otherwise"""
        out = []
        for t, bad in e.fork(s, cond):
            if not bad:
                out.append(t)
                continue
            for u, v in e.fork(t, nv):
                e.safety_raise(u, "NotViableConfiguration" if v else "ValueError", node)
        return out

    def prepare(e, s, a, kw, node):
        a = list(a) + [kw[x] for x in ("algo_name", "algorithm_name", "algo")[:1] if x in kw]
        P.ensure(s, "prepared for the names of the simulation", And(len(a) == 2 and not kw, *[e.eq(s, x, y) for x, y in zip(a, (algo, problem))]))

        def final(e2, s2, args):
            P.ensure(s2, "the driver is made as prepared", not args)
            say(s2, "made")
            return [(s2, driver)]
        r = []
        for t in fails(e, s, fp, node):
            say(t, "prepared")
            r.append((t, (UFun(final, "driver factory"), pm)))
        return r

    def run_driver(e, s, a, kw, node):
        P.ensure(s, "the driver made runs the prepared problem", And(len(a) == 4 and not kw, len(a) > 2 and a[1] == driver and a[2] is pm))
        say(s, "run")
        return [(t, results) for t in fails(e, s, fr, node)]

    def log_time(e, s, a, kw, node):
        out = kw.get("out", a[3] if len(a) > 3 else None)
        if not isinstance(out, ListRef):
            raise Unsupported("timing of another form")
        # the time is in the list once the block is over; nothing reads it before
        s.heap[out.addr] = HeapList(Seq.lit(list(P.seq(out, s).items()) + [took]))
        return [(s, SpecObj({"__enter__": METHOD(lambda t, x: None), "__exit__": METHOD(lambda t, x: None)}, "timing"))]
    logger = SpecObj({x: METHOD(lambda st, a: None) for x in ("debug", "info", "warning", "exception", "error")}, "logger")
    K = eng.contracts
    K[F + "prepare"] = prepare
    K[WK + ".run_driver"] = run_driver
    K[WK + "._init_random_seed"] = lambda e, s, a, kw, node: [(s, None)]
    K["simulation.timing:log_time"] = log_time
    K["simulation.log_helper:init"] = lambda e, s, a, kw, node: [(s, None)]
    K["lib:logging.getLogger"] = lambda e, s, a, kw, node: [(s, logger)]
    K["lib:os.getpid"] = lambda e, s, a, kw, node: [(s, P.int("PID"))]
    K["lib:inspect.trace"] = lambda e, s, a, kw, node: [(s, P.lst(Seq.lit([tuple(P.str("TRACE%d" % i) for i in range(6))]), s))]
    sim = P.obj("simulation.model:SimulationCase", dict(problem_name=problem, algorithm_name=algo, run_id=P.int("RUN"), renice=None, results_dir=P.str("DIR"), id=P.str("ID"), params=P.dct([])))
    o = P.obj(WK, dict(simulation=sim, simulation_no=no))
    for s, v in P.call(P.method(o, "run"), [o]):
        log = g.get(s, "log")
        P.ensure(s, "prepared, made, run and stopped once each and in this order", log == ("prepared", "made", "run", "shutdown") if "made" in log else log in ((), ("prepared",)))
        good = isinstance(v, tuple) and len(v) == 3
        P.ensure(s, "a run that does not fail gives a result", Implies(Not(Or(fp, fr)), good))
        P.ensure(s, "a run that fails gives none", Implies(Or(fp, fr), v is None))
        if good:
            P.ensure(s, "the results of the run, its time and the number of the simulation", And(v[0] is results, R(v[1]) == took, toz(v[2]) == no))


RP = "simulation.run_parallel:"


@proof("C14", "every simulation of a command is carried out once, under a number of its own, whether or not it fails; any number of simulations", RP + "run_parallel")
def all_run(P):
    eng = P.eng
    n = P.int("N", 1)
    CASE = z3.Function("CASE", z3.IntSort(), z3.IntSort())
    cases = P.lst(Seq(n, lambda k: Tok(CASE(toz(k)))))
    g = Ghost(P, played=0, made=(), ran=0)
    K = eng.contracts
    failed = P.bool("FAILED")

    def factory(e, s, a):
        if len(a) != 2 or not isinstance(a[0], Tok):
            raise Unsupported("worker of another form")
        g.set(s, "made", g.get(s, "made") + ((a[0].t, toz(a[1])),))

        def run(e2, s2, args):
            g.set(s2, "ran", g.get(s2, "ran") + 1)
            out = []
            for t, bad in e2.fork(s2, failed):
                out.append((t, None if bad else (tok(P, "RESULT"), P.real("TIME"), toz(a[1]))))
            return out
        return [(s, SpecObj({"run": UFun(run, "run")}, "worker"))]
    K[F + "resolve_configuration"] = lambda e, s, a, kw, node: [(s, (UFun(factory, "worker class"), cases))]
    stage = lambda kind: lambda e, s, a, kw, node: [(s, SpecObj({"stage": (kind, a[0] if a else kw["on_next" if kind == "do" else "mapper"])}, "operator"))]
    K["lib:rx.operators.map"] = stage("map")
    K["lib:rx.operators.do_action"] = stage("do")

    def source(items, ops=()):
        """contract of rx: the stages are applied to every item, one after the other in order"""
        def pipe(e, s, a):
            if any(not (isinstance(o, SpecObj) and "stage" in o.attrs) for o in a):
                raise Unsupported("operator of another kind")
            return [(s, source(items, tuple(ops) + tuple(a)))]

        def play(e, s, a):
            sq = P.seq(items, s)
            P.ensure(s, "one item for every simulation", cmp("==", sq.n, n))
            local = [x for f in s.frames for x in (f.values() if isinstance(f, dict) else s.frames[f].values()) if isinstance(x, ListRef) and not isinstance(x, (DictRef, SetRef))]
            empty = [x for x in local if P.seq(x, s).is_lit and P.seq(x, s).n == 0]
            i = e.fresh_int("item")
            t = s.copy()
            t.assume(z3.And(0 <= i, i < n))
            WAS = z3.Function("EARLIER", z3.IntSort(), z3.IntSort())
            for x in empty:         # whatever the items before left there
                t.heap[x.addr] = HeapList(Seq(i, lambda k: Tok(WAS(toz(k)))))
            outs = [(t, sq.get(i))]
            for o in ops:
                kind, f = o.attrs["stage"]
                nxt = []
                for u, v in outs:
                    nxt += [(w, r if kind == "map" else v) for w, r in P.call(f, [v], st=u)]
                outs = nxt
            perm = P.seq(cases, s)
            if perm.kind == "perm":
                base, pm, inv = perm.parts
            else:
                pm = inv = toz
                if not all(e.prove(e.hyps(u), m[0] == CASE(i), 2000) for u, _ in outs for m in g.get(u, "made")):
                    raise Unsupported("simulations in another order")
            for u, _ in outs:
                made = g.get(u, "made")
                ok = len(made) == 1
                P.ensure(u, "one worker for every simulation", ok)
                P.ensure(u, "it runs once", g.get(u, "ran") == 1)
                if ok:
                    P.ensure(u, "the simulation is one of those asked for", And(made[0][0] == CASE(pm(i)), pm(i) >= 0, pm(i) < n))
                    P.ensure(u, "its number is its own", made[0][1] == i)
            k = e.fresh_int("k")
            x = s.copy()
            x.assume(z3.And(0 <= k, k < n))
            P.ensure(x, "every simulation asked for has its turn", And(inv(k) >= 0, inv(k) < n, pm(inv(k)) == k))
            g.set(s, "played", g.get(s, "played") + 1)
            for x in empty:
                s.heap[x.addr] = HeapList(Seq(n, lambda k: Tok(WAS(toz(k)))))
            return [(s, None)]
        return SpecObj({"pipe": UFun(pipe, "pipe"), "run": UFun(play, "run")}, "observable")
    K["lib:rx.from_iterable"] = lambda e, s, a, kw, node: [(s, source(a[0]))]
    K["lib:thespian.actors.ActorSystem"] = lambda e, s, a, kw, node: [(s, SpecObj({"shutdown": METHOD(lambda t, x: None)}, "actor system"))]
    for nm in ("configure_default_executor", "shutdown_default_executor"):
        K["evotools.rxtools:" + nm] = lambda e, s, a, kw, node: [(s, None)]

    def number(e, s, a, kw, node):
        P.ensure(s, "progress is a number of simulations", And(len(a) == 3, *[is_num(x) for x in a[1:]]))
        return [(s, None)]
    is_num = lambda x: isinstance(x, (int, float)) or (isinstance(x, z3.ArithRef))
    K[RP + "log_simulation_stats"] = number
    K[RP + "log_summary"] = lambda e, s, a, kw, node: [(s, None)]
    K["simulation.timing:log_time"] = lambda e, s, a, kw, node: [(s, SpecObj({"__enter__": METHOD(lambda t, x: None), "__exit__": METHOD(lambda t, x: None)}, "timing"))]
    K["lib:datetime.datetime.now"] = lambda e, s, a, kw, node: [(s, Opaque("time"))]
    J = z3.Function("INT", STR, z3.IntSort())
    K["lib:int"] = lambda e, s, a, kw, node: [(s, J(a[0]))] if is_str(a[0]) and not isinstance(a[0], str) and len(a) == 1 else (_ for _ in ()).throw(Unsupported("int"))
    for s, v in P.call(RP + "run_parallel", [P.dct([("-j", P.str("JOBS")), ("-N", P.str("REPEAT"))])]):
        P.ensure(s, "the simulations are run through once", g.get(s, "played") == 1)
