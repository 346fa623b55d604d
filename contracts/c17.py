"""C17: the metric cache.  The file system is a ghost map from paths to contents; metrics are uninterpreted functions."""
from .lib import *

M = "simulation.metrics_processor:"
S = "simulation.serializer:"
NAMES = ["generational_distance", "inverse_generational_distance", "average_hausdorff_distance", "epsilon", "extent", "spacing", "non_domination_ratio", "hypervolume"]


class Files:
    """ghost file system: what was there at the start (base: path -> [(condition, content or None)]) and what was written since.
    trusted: pickle.load returns what pickle.dump stored in that file; opening a missing file to read raises FileNotFoundError"""

    def __init__(self, P, base):
        self.P, self.base = P, base
        self.g = Ghost(P, written=(), calls=(), removed=())
        P.eng.trusted.add("pickle.load returns an equal copy of what pickle.dump last stored under that path; a missing file raises FileNotFoundError")
        P.eng.contracts["lib:path.open"] = self.open
        P.eng.contracts["lib:pickle.load"] = self.load
        P.eng.contracts["lib:pickle.dump"] = self.dump

    def written(self, s):
        return self.g.get(s, "written")

    def find(self, s, p):
        """-> [(state, content or None)]"""
        for q, v in reversed(self.written(s)):
            c = self.P.eng.eq(s, p, q) if len(p.parts) == len(q.parts) else False
            if c is True:
                return [(s, v)]
            if c is not False:
                raise Unsupported("whether two paths are the same file")
        return [(t, v) for c, v in self.base(s, p) for t in [s.copy()] for _ in [t.assume(toz(c))] if self.P.eng.feasible(t)]

    def open(self, e, s, a, kw, node):
        mode = kw.get("mode", a[1] if len(a) > 1 else "r")
        if mode not in ("rb", "wb"):
            raise Unsupported("open mode")
        mk = lambda p, v: SpecObj({"__exit__": None, "path": p, "mode": mode, "content": v})
        if mode == "wb":
            return [(s, mk(a[0], None))]
        out = []
        for t, v in self.find(s, a[0]):
            if v is None:
                e.safety_raise(t, "FileNotFoundError", node)
            else:
                out.append((t, mk(a[0], v)))
        return out

    def load(self, e, s, a, kw, node):
        if a[0].attrs["mode"] != "rb":
            raise Unsupported("reading a file opened to write")
        v = a[0].attrs["content"]
        return [(s, v(s) if callable(v) else v)]

    def dump(self, e, s, a, kw, node):
        if a[1].attrs["mode"] != "wb":
            raise Unsupported("writing a file opened to read")
        v = a[0]
        self.g.set(s, "written", self.written(s) + ((a[1].attrs["path"], v),))
        return [(s, None)]


def tok(P, n):
    return Tok(P.int(n))


def setting(P, shape):
    """a stored result, a metric name and parameters of a given shape; the cache file may be absent, or hold any entry"""
    metric = P.str("METRIC")
    path = PathV([P.str("ROOT"), P.str("PROB"), P.str("ALGO"), P.str("RUN"), scat(P.str("LABEL"), ".pickle")])
    fit, nd = tok(P, "FIT"), tok(P, "ND")
    res = SpecObj({"path": path, "name": stem(path.parts[-1]), "fitnesses": fit, "non_dominated_fitnesses": nd})
    want = PathV(path.parts[:-1] + (scat(scat(scat(P.str("LABEL"), "."), metric), ".pickle"),))
    stored = tok(P, "STORED")
    here, alike = P.bool("CACHED"), P.bool("SAMEKEYS")
    par = {k: tok(P, "PAR_" + k) for k in shape}
    old = {k: tok(P, "OLD_" + k) for k in shape}

    def entry(keys):
        def mk(s):
            pd = {k: (old[k] if k in old else tok(P, "OLD_" + k)) for k in keys}
            return P.dct([("value", stored), ("metric", P.dct([("name", metric), ("module", tok(P, "OLDMOD")), ("params", P.dct(list(pd.items()), s))], s))], s)
        return mk

    def base(s, p):
        if len(p.parts) != 5 or z3.simplify(toz(P.eng.eq(s, p, want))) is not None and not P.eng.prove(P.eng.hyps(s), toz(P.eng.eq(s, p, want)), 2000):
            raise Unsupported("another file read")
        return [(Not(here), None), (And(here, alike), entry(shape)), (And(here, Not(alike)), entry(list(shape) + ["other"]))]
    fs = Files(P, base)
    VAL = P.fn1("METRICVAL", STR, z3.IntSort(), z3.IntSort(), *[z3.IntSort()] * len(shape), z3.IntSort())
    MODS = []

    def import_module(e, s, a, kw, node):
        MODS.append(a[0])

        def attr(e2, s2, args):
            nm = args[0]

            def call(e3, s3, a3, kw3, n3):
                if len(a3) != 2 or set(kw3) != set(shape):
                    raise Unsupported("metric called differently")
                return [(s3, Tok(VAL(strz(nm), a3[0].t, a3[1].t, *[kw3[k].t for k in shape])))]
            e2.contracts["lib:spec.metric"] = call
            return [(s2, Builtin("spec.metric"))]
        return [(s, SpecObj({"__getattr__": UFun(attr)}))]
    P.eng.contracts["lib:importlib.import_module"] = import_module
    return res, metric, want, stored, here, alike, par, old, fs, VAL, fit, nd, MODS


def get_metric(shape):
    def run(P):
        res, metric, want, stored, here, alike, par, old, fs, VAL, fit, nd, MODS = setting(P, shape)
        kw = {"metric_params": P.dct(list(par.items()))} if shape else {}
        outs, raised = P.call_ex(M + "get_metric", [res, metric], kw)
        same = And(here, alike, *[cmp("==", par[k].t, old[k].t) for k in shape])
        fresh = VAL(strz(metric), fit.t, nd.t, *[par[k].t for k in shape])
        for s, v in outs:
            w = fs.written(s)
            P.ensure(s, "an entry made with other parameters is not returned", Implies(here, same))
            if not isinstance(v, Tok):
                P.ensure(s, "a value is returned", False)
                continue
            P.ensure(s, "a cached value is returned as stored", Implies(here, cmp("==", v.t, stored.t)))
            P.ensure(s, "without a cache entry the value is the metric of that result's points with those parameters", Implies(Not(here), cmp("==", v.t, fresh)))
            if not w:
                P.ensure(s, "a computed value is stored", here)
            else:
                P.ensure(s, "nothing is stored over an entry", Not(here))
                P.ensure(s, "one entry is stored", len(w) == 1)
                q, e = w[0]
                P.ensure(s, "stored next to the result, under its label and the metric's name", P.eng.eq(s, q, want))
                P.ensure(s, "the stored value is the value returned", cmp("==", dget(P, s, e, "value").t, fresh))
                pd = dget(P, s, dget(P, s, e, "metric"), "params")
                items = dict(s.heap[pd.addr].items)
                P.ensure(s, "the parameters are stored with it", And(set(items) == set(shape), *[cmp("==", items[k].t, par[k].t) for k in shape if k in items]))
        for s, e in raised:
            P.ensure(s, "it only fails on an entry made with other parameters", And(here, Not(same)))
            P.ensure(s, "nothing is stored then", not fs.written(s))
        P.ensure(P.st, "the metric comes from the metrics module", all(m == "metrics.metrics" for m in MODS))
    return run


for _shape in ([], ["pareto"], ["all_solutions"]):
    proof("C17", "get_metric returns the stored or the freshly computed value and refuses other parameters (%s)" % (_shape[0] if _shape else "no parameters"), M + "get_metric")(get_metric(_shape))


def wrapper(name):
    def run(P):
        got = []

        def gm(e, s, a, kw, node):
            got.append((a, kw))
            return [(s, tok(P, "VALUE"))]
        P.eng.contracts[M + "get_metric"] = gm
        res, pareto = SpecObj({}), tok(P, "PARETO")
        for s, v in P.call(M + name, [res, pareto]):
            a, kw = got[0]
            full = dict(zip(["result", "metric_name", "metric_mod_name", "metric_params"], a))
            full.update(kw)
            P.ensure(s, "asks once", len(got) == 1)
            P.ensure(s, "for that result", full.get("result") is res)
            P.ensure(s, "for the metric it is named after", full.get("metric_name") == name)
            mod = full.get("metric_mod_name")
            P.ensure(s, "of the metrics module", mod is None or tuple(P.seq(mod, s).items()) == ("metrics", "metrics"))
            items = s.heap[full["metric_params"].addr].items
            P.ensure(s, "with the given pareto front", len(items) == 1 and items[0][0] == "pareto" and P.eng.eq(s, items[0][1], pareto) is True)
            P.ensure(s, "and returns its value", cmp("==", v.t, P.int("VALUE")))
    return run


for _n in NAMES:
    proof("C17", "%s is the cached metric of that name" % _n, M + _n)(wrapper(_n))


@proof("C17", "the dominance indicator is computed against the pool of the result's problem, label and run number, loaded when it is not there", M + "pareto_dominance_indicator")
def pdi(P):
    got, loads = [], []

    def gm(e, s, a, kw, node):
        full = dict(zip(["result", "metric_name", "metric_mod_name", "metric_params"], a))
        full.update(kw)
        got.append((s, full))
        return [(s, tok(P, "VALUE"))]
    P.eng.contracts[M + "get_metric"] = gm
    POOL, POOL2 = (P.fn1(n, STR, STR, z3.IntSort(), z3.IntSort()) for n in ("POOL", "LOADED"))
    HAS = P.fn1("HAS", STR, STR, z3.IntSort(), z3.BoolSort())
    key = lambda k: (strz(k[0]), strz(k[1]), toz(k[2]))
    cache = DictRef(P.eng.alloc(P.st, HeapDict((), None, dict(get=lambda k: Tok(POOL(*key(k))), has=lambda k: HAS(*key(k))))))
    prob, label, run = P.str("PROBLEM"), P.str("LABEL"), P.int("RUN", 0)
    LOADABLE = P.bool("THE_FILES_HOLD_THAT_RUN")

    def preload(e, s, a, kw, node):
        loads.append((s, a[1]))
        P.ensure(s, "pools are loaded into the cache that was given", a[0] == cache)
        # contract: pools of every label and run of that problem are in the cache afterwards
        s.heap[cache.addr] = HeapDict((), None, dict(get=lambda k: Tok(POOL2(*key(k))), has=lambda k: And(LOADABLE, toz(P.eng.eq(s, k[0], prob)))))
        return [(s, None)]
    P.eng.contracts[M + "preload_results_for_problem"] = preload
    path = PathV([P.str("ROOT"), prob, P.str("ALGO"), P.str("ID"), scat(label, ".pickle")])
    case = SpecObj({"problem_name": prob, "algorithm_name": P.str("ALGO")})
    res = SpecObj({"path": path, "name": stem(path.parts[-1]), "simulation_case": case, "run_no": run})
    k = (prob, label, run)
    for s, v in P.call(M + "pareto_dominance_indicator", [res, cache]):
        mine = [f for t, f in got]
        P.ensure(s, "an indicator is given when the pool is known", Implies(Or(HAS(*key(k)), LOADABLE), v is not None if not isinstance(v, Opt) else Not(v.isnone)))
    P.ensure(P.st, "an indicator can be given", bool(got))
    for s, full in got:
        P.ensure(s, "the dominance indicator of that result is asked for", full.get("result") is res and full.get("metric_name") == "pareto_dominance_indicator")
        items = dict(s.heap[full["metric_params"].addr].items)
        P.ensure(s, "with the pool of the same problem, label and run number", And(set(items) == {"all_solutions"}, cmp("==", items["all_solutions"].t, z3.If(HAS(*key(k)), POOL(*key(k)), POOL2(*key(k))))))
    for s, p in loads:
        P.ensure(s, "loading only happens for a pool that is not there", Not(HAS(*key(k))))
        P.ensure(s, "from the directory of that problem", P.eng.eq(s, p, PathV(path.parts[:2])) if len(p.parts) == 2 else False)


TABLE = [("gd", "generational_distance"), ("igd", "inverse_generational_distance"), ("ahd", "average_hausdorff_distance"), ("epsilon", "epsilon"), ("extent", "extent"), ("spacing", "spacing"),
         ("ndr", "non_domination_ratio"), ("hypervolume", "hypervolume")]


@proof("C17", "every metric of a list of results is that metric of each result, in order, on its non-dominated points, any number of results", M + "yield_metrics")
def yields(P):
    n = P.int("n", 0)
    cls = P.get(S + "ResultWithMetadata")
    RES, FIT, ND, COST = (P.fn1(x, z3.IntSort(), z3.IntSort()) for x in ("RES", "FIT", "ND", "COST"))
    P.st.heap[("F", cls.name, "fitnesses")] = FMap(lambda t: FIT(t))
    P.st.heap[("F", cls.name, "additional_data")] = FMap(lambda t: SpecObj({"__getitem__": METHOD(lambda s, a: COST(t) if a[0] == "cost" else P.int("OTHER"))}))
    P.st.heap[("F", cls.name, "non_dominated_fitnesses")] = FMap(lambda t: z3.Function("OLD_ND", z3.IntSort(), z3.IntSort())(t))
    P.eng.contracts["metrics.metrics:filter_not_dominated"] = lambda e, s, a, kw, node: [(s, ND(a[0]))]
    WR = P.fn1("WRAPPED", STR, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    PDI = P.fn1("PDI", z3.IntSort(), z3.IntSort(), z3.IntSort())
    front = tok(P, "FRONT")
    nd_of = lambda s, t: P.eng.getattr(s, SymObj(cls, t), "non_dominated_fitnesses")[0][1]

    def w(name):
        def h(e, s, a, kw, node):
            full = dict(zip(["result", "pareto"], a))
            full.update(kw)
            r = full["result"].term
            # contract (get_metric): the value depends on the result, its points and its non-dominated points
            return [(s, Tok(WR(strz(name), r, nd_of(s, r), full["pareto"].t)))]
        return h
    for _, nm in TABLE:
        P.eng.contracts[M + nm] = w(nm)
    caches = []

    def pd(e, s, a, kw, node):
        full = dict(zip(["result", "cache"], a))
        full.update(kw)
        caches.append(full["cache"])
        return [(s, Tok(PDI(full["result"].term, nd_of(s, full["result"].term))))]
    P.eng.contracts[M + "pareto_dominance_indicator"] = pd

    def inv(eng, st):
        def cand(s, k):
            j = bvar()
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k)), nd_of(s, RES(j)) == ND(FIT(RES(j)))), patterns=[RES(j)])
        return [cand]
    P.eng.loop_inv = inv
    P.eng.inv_for = True
    results = P.lst(Seq(n, lambda k: SymObj(cls, RES(toz(k)))))
    for s, v in P.call(M + "yield_metrics", [results, SpecObj({"pareto_front": front})]):
        rows = P.seq(v, s)
        P.ensure(s, "ten metrics", rows.is_lit and rows.n == 10)
        got = {r[0]: r for r in rows.items()}
        P.ensure(s, "each under its own key", set(got) == {k for k, _ in TABLE} | {"cost", "pdi"})
        k = P.int("k", 0)
        s.assume(z3.And(0 <= k, k < n))
        want = {a: WR(strz(b), RES(k), ND(FIT(RES(k))), front.t) for a, b in TABLE}
        want["pdi"] = PDI(RES(k), ND(FIT(RES(k))))
        want["cost"] = COST(RES(k))
        for key, (_, _, vals) in got.items():
            sq = P.seq(vals, s)
            P.ensure(s, "%s: one value per result" % key, toz(sq.n) == n)
            for s2, x in P.call(sq.get(k), [], st=s.copy()):
                P.ensure(s2, "%s: the k-th value is that metric of the k-th result, on its non-dominated points" % key, R(x.t if isinstance(x, Tok) else x) == toreal(want[key]))
        P.ensure(s, "indicators share one pool", all(c == caches[0] for c in caches))


def pools(nsol):
    def run(P):
        prob, l1, l2, other = P.str("PROBLEM"), P.str("LABEL1"), P.str("LABEL2"), P.str("OTHERPROBLEM")
        r1, r2 = P.int("RUN1", 0), P.int("RUN2", 0)
        P.assume(other != prob)
        P.assume(z3.Or(l1 != l2, r1 != r2))
        keys = [(prob, l1, r1), (prob, l2, r2), (other, l1, r1)]
        pt = lambda n: Seq.lit([P.real(n)])                                  # a point, standing for any
        mk = lambda tag, k, st=None: P.lst(Seq.lit([P.lst(Seq.lit([pt("%s_%d_%d_%d" % (tag, k, i, j)) for j in range(2)]), st) for i in range(nsol)]), st)
        now = [mk("NOW", k) for k in range(3)]
        flat = lambda v, s: [R(P.seq(y, s).get(0)) for sol in P.seq(v, s).items() for y in P.seq(sol, s).items()]
        NDF = P.fn1("NONDOMINATED", *[z3.RealSort()] * (2 * nsol), z3.IntSort())

        def fnd(e, s, a, kw, node):
            xs = [P.seq(y, s) for y in P.seq(a[0], s).items()]
            if len(xs) != 2 * nsol:
                raise Unsupported("another pool filtered")
            return [(s, P.lst(Seq.lit([NDF(*[R(x.get(0)) for x in xs])]), s))]
        P.eng.contracts["metrics.metrics:filter_not_dominated"] = fnd
        cache = P.dct(list(zip(keys, now)))
        g = Ghost(P, cleared=0, saved=())
        ppath = PathV([P.str("ROOT"), prob])
        here, k1, k2 = P.bool("POOLFILE"), P.str("OLDLABEL1"), P.str("OLDLABEL2")
        q1, q2 = P.int("OLDRUN1", 0), P.int("OLDRUN2", 0)
        same = []

        def load(e, s, a, kw, node):
            out = []
            for t, c in e.fork(s, here):
                if not c:
                    e.safety_raise(t, "FileNotFoundError", node)
                    continue
                t.assume(z3.Or(k1 != k2, q1 != q2))
                # what this function stored earlier (its own postcondition): the pools of the stored solutions, keys in ascending order
                t.assume(z3.Or(strz(k1) < strz(k2), z3.And(k1 == k2, q1 < q2)))
                old = [mk("OLD", k, t) for k in range(2)]
                nd = P.dct([((prob, k1, q1), e.mk_set(t, [NDF(*flat(old[0], t))])), ((prob, k2, q2), e.mk_set(t, [NDF(*flat(old[1], t))]))], t)
                out.append((t, (P.lst(Seq.lit(old), t), nd)))
            return out
        P.eng.contracts[S + "load_file"] = load

        def clear(e, s, a, kw, node):
            g.set(s, "cleared", g.get(s, "cleared") + 1)
            return [(s, None)]
        P.eng.contracts[M + "clear_old_pdi_metrics"] = clear

        def save(e, s, a, kw, node):
            g.set(s, "saved", g.get(s, "saved") + ((a[0], a[1]),))
            return [(s, None)]
        P.eng.contracts[S + "save_file"] = save
        P.eng.merge_ok = False
        before = [[x for x in flat(v, P.st)] for v in now]
        for s, _ in P.call(M + "filter_non_dominated_in_cache", [ppath, cache]):
            for k in range(2):
                for s2, v in P.eng.dict_get(s.copy(), cache, keys[k], None):
                    it = s2.heap[v.addr].items if isinstance(v, SetRef) else ()
                    P.ensure(s2, "the pool holds the non-dominated points of all results under that label and run number", cmp("==", it[0], NDF(*before[k])) if len(it) == 1 else False)
            for s2, v in P.eng.dict_get(s.copy(), cache, keys[2], None):
                P.ensure(s2, "pools of other problems are left alone", v == now[2])
            sv = g.get(s, "saved")
            old = [[P.real("OLD_%d_%d_%d" % (k, i, j)) for i in range(nsol) for j in range(2)] for k in range(2)]
            unchanged = lambda a, b: And(toz(P.eng.eq(s, a[0], (prob, k1, q1))), toz(P.eng.eq(s, b[0], (prob, k2, q2))), *[x == y for x, y in zip(old[0] + old[1], a[1] + b[1])])
            K = [(keys[0], before[0]), (keys[1], before[1])]
            same = And(here, Or(unchanged(K[0], K[1]), unchanged(K[1], K[0])))
            if g.get(s, "cleared") == 0:
                P.ensure(s, "indicators are kept only when no result has changed", same)
            if not sv:
                P.ensure(s, "the stored pool is kept only when no result has changed", same)
            else:
                P.ensure(s, "stored once, in the problem's directory", And(len(sv) == 1, P.eng.eq(s, sv[0][0], PathV(ppath.parts + (scat(prob, "_nondominated"),))) if len(sv[0][0].parts) == 3 else False))
                sols, nd = sv[0][1]
                sol, ent = P.seq(sols, s), s.heap[nd.addr].items
                P.ensure(s, "one stored pool per key", sol.is_lit and sol.n == 2 and len(ent) == 2)
                for i in range(2):
                    it = s.heap[ent[i][1].addr].items
                    P.ensure(s, "the stored pools are those of the stored solutions, in ascending order of the keys", And(len(it) == 1, cmp("==", it[0], NDF(*flat(sol.get(i), s)))))
                a, b = ent[0][0], ent[1][0]
                P.ensure(s, "ascending keys", Or(strz(a[1]) < strz(b[1]), And(toz(P.eng.eq(s, a[1], b[1])), toz(a[2]) < toz(b[2]))))
    return run


for _n in (1, 2):
    proof("C17", "pools are the non-dominated points of the current results and are only reused when those are unchanged (%d results each)" % _n, M + "filter_non_dominated_in_cache",
          bounded="two keys of the problem and one of another, %d results of two points each; labels, run numbers and values arbitrary" % _n)(pools(_n))


STAMP = r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}"


def valid(name):
    from pydv import regex
    return z3.InRe(name, regex._seq(regex.sp.parse(STAMP)))


def label_of(name):
    """the label of a result file's name: digits before .pickle"""
    from pydv import regex
    return z3.InRe(name, regex._seq(regex.sp.parse(r"[0-9]+\.pickle")))


@proof("C17", "the pool of a label and run number collects that result of every algorithm, runs counted in chronological order among the run directories", M + "preload_results_for_problem",
       bounded="two algorithms, the first with two directory entries, one file in each; all names arbitrary", budget=300)
def preload(P):
    P.eng.merge_ok = False
    root, prob = P.str("ROOT"), P.str("PROBLEM")
    pp = PathV([root, prob])
    tree = {"a": ["r1", "r2"], "b": ["r3"]}
    anames = {a: P.str("ALGO_" + a) for a in tree}
    rn = {r: P.str("RUN_" + r) for rs in tree.values() for r in rs}
    fn = {r: P.str("FILE_" + r) for r in rn}
    isdir = {r: P.bool("ISDIR_" + r) for r in rn}
    stray = P.bool("STRAY_FILE_AMONG_ALGORITHMS")
    P.assume(rn["r1"] != rn["r2"])
    P.assume(anames["a"] != anames["b"])
    where = {}
    for a, rs in tree.items():
        where[("algo", a)] = PathV([root, prob, anames[a]])
        for r in rs:
            where[("run", r)] = PathV([root, prob, anames[a], rn[r]])
            where[("file", r)] = PathV([root, prob, anames[a], rn[r], fn[r]])

    def which(s, p):
        hit = [k for k, q in where.items() if len(q.parts) == len(p.parts) and P.eng.eq(s, p, q) is True]
        if len(hit) != 1:
            raise Unsupported("another path looked at")
        return hit[0]

    def iterdir(e, s, a, kw, node):
        p = a[0]
        if len(p.parts) == 2 and e.eq(s, p, pp) is True:
            return [(s, P.lst(Seq.lit([where[("algo", x)] for x in tree]), s))]
        kind, x = which(s, p)
        if kind == "algo":
            return [(s, P.lst(Seq.lit([where[("run", r)] for r in tree[x]]), s))]
        if kind == "run":
            return [(s, P.lst(Seq.lit([where[("file", x)]]), s))]
        raise Unsupported("a file listed")

    def is_dir(e, s, a, kw, node):
        kind, x = which(s, a[0])
        return [(s, True if kind == "algo" else isdir[x] if kind == "run" else False)]
    P.eng.contracts["lib:path.iterdir"] = iterdir
    P.eng.contracts["lib:path.is_dir"] = is_dir
    FITS = {r: P.int("FITS_" + r) for r in rn}
    for i, r in enumerate(rn):
        P.assume(FITS[r] == i)                                # told apart

    def load(e, s, a, kw, node):
        kind, x = which(s, a[0])
        if kind != "file":
            raise Unsupported("a directory loaded")
        return [(s, SpecObj({"fitnesses": Tok(FITS[x])}))]
    P.eng.contracts[S + "load_file"] = load
    done = []

    def filt(e, s, a, kw, node):
        g = {"problem_path": None, "cache": None}
        g.update(dict(zip(["problem_path", "cache"], a)))
        g.update(kw)
        done.append((s, g["problem_path"], g["cache"], s.copy()))
        return [(s, None)]
    P.eng.contracts[M + "filter_non_dominated_in_cache"] = filt
    cache = DictRef(P.eng.alloc(P.st, HeapDict((), Builtin("list"))))
    outs = P.call(M + "preload_results_for_problem", [cache, pp])
    seen = 0
    for s, p, c, s0 in done:
        P.ensure(s0, "the pools are then reduced to non-dominated points, in the same cache", c == cache and P.eng.eq(s0, p, pp) is True)
        items = s0.heap[cache.addr].items
        total = sum(P.seq(v, s0).n for _, v in items)
        good = {r: And(isdir[r], valid(rn[r]), label_of(fn[r])) for r in rn}
        P.ensure(s0, "every result of a run directory is in exactly one pool, nothing else is", z3.Sum([z3.If(toz(good[r]), 1, 0) for r in rn]) == total)
        for r in rn:
            no = z3.IntVal(0) if r == "r3" else z3.If(z3.And(toz(isdir[{"r1": "r2", "r2": "r1"}[r]]), valid(rn[{"r1": "r2", "r2": "r1"}[r]]), rn[{"r1": "r2", "r2": "r1"}[r]] < rn[r]), 1, 0)
            hits = [And(toz(P.eng.eq(s0, k[0], prob)), toz(scat(k[1], ".pickle") == fn[r]), toz(k[2]) == no, Or(*[x.t == FITS[r] for x in P.seq(v, s0).items()])) for k, v in items]
            P.ensure(s0, "a result is in the pool of its problem, label and run number", Implies(good[r], Or(*hits)))
        seen += 1
    P.ensure(P.st, "pools are reduced on every path", seen >= len(outs))


@proof("C17", "every stored indicator of the problem and its old pool are removed, and nothing else", M + "clear_old_pdi_metrics",
       bounded="two directory entries and two walked directories of two and one files; all names arbitrary")
def clear(P):
    P.eng.merge_ok = False
    root, prob = P.str("ROOT"), P.str("PROBLEM")
    pp = PathV([root, prob])
    ents = [P.str("ENTRY%d" % i) for i in range(2)]
    dirs = [PathV([root, prob, P.str("ALGO%d" % i), P.str("RUN%d" % i)]) for i in range(2)]
    files = [[P.str("FILE%d_%d" % (i, j)) for j in range(2 - i)] for i in range(2)]
    P.eng.contracts["lib:path.iterdir"] = lambda e, s, a, kw, node: [(s, P.lst(Seq.lit([PathV([root, prob, x]) for x in ents]), s))]

    def walk(e, s, a, kw, node):
        if P.eng.eq(s, a[0], pp) is not True:
            raise Unsupported("another directory walked")
        return [(s, P.lst(Seq.lit([(d, P.lst(Seq.lit([]), s), P.lst(Seq.lit(fs), s)) for d, fs in zip(dirs, files)]), s))]
    P.eng.contracts["lib:os.walk"] = walk
    g = Ghost(P, removed=())

    def remove(e, s, a, kw, node):
        g.set(s, "removed", g.get(s, "removed") + (a[0],))
        return [(s, None)]
    P.eng.contracts["lib:os.remove"] = remove
    ends = lambda x: z3.SuffixOf(z3.StringVal(".pareto_dominance_indicator.pickle"), x)
    for s, _ in P.call(M + "clear_old_pdi_metrics", [pp]):
        rm = g.get(s, "removed")
        for d, fs in zip(dirs, files):
            for f in fs:
                full = PathV(d.parts + (f,))
                P.ensure(s, "stored indicators are removed", Implies(ends(f), Or(*[P.eng.eq(s, r, full) for r in rm if len(r.parts) == 5])))
                P.ensure(s, "no other file of a run is removed", Implies(Not(ends(f)), And(*[Not(toz(P.eng.eq(s, r, full))) if not z3.eq(r.parts[-1], f) else False for r in rm if len(r.parts) == 5 and z3.eq(r.parts[-2], d.parts[-1]) and z3.eq(r.parts[-1], f)])))
        for x in ents:
            P.ensure(s, "an entry not named after the problem is left alone", Implies(Not(z3.Contains(x, scat(prob, "_"))), And(*[Not(toz(P.eng.eq(s, r, PathV([root, prob, x])))) for r in rm if len(r.parts) == 3])))
            P.ensure(s, "the pool file is removed", Implies(x == scat(prob, "_nondominated"), Or(*[P.eng.eq(s, r, PathV([root, prob, x])) for r in rm if len(r.parts) == 3])))
