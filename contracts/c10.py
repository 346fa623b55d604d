"""C10: storing and finding results.  File names are strings, the file system is a ghost map (contracts/c17.py: Files)."""
from .lib import *
from .c17 import Files, tok
from pydv import regex

S = "simulation.serializer:"
N = "simulation.serialization:"
MODEL = "simulation.model:"
STAMP = r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}"
RUN = STAMP + r"__\d{7}"


def rx(p):
    return regex._seq(regex.sp.parse(p))


def matches(x, p):
    return z3.InRe(strz(x), rx(p))


def fmt7(P):
    """trusted: f'{x:0>7}' pads the decimal text of 0 < x < 10^7 with zeros to seven digits, and leaves a text of seven characters as it is"""
    P.eng.trusted.add("f'{x:0>7}' gives seven digits for 0 < x < 10**7, different ones for different numbers, and returns a text of seven characters unchanged")
    fi, fs = z3.Function("fmt:0>7", z3.IntSort(), STR), z3.Function("fmt:0>7", STR, STR)
    return fi, fs


@proof("C10", "the identity of a run is its date and its seven digit number, recognised as such", MODEL + "get_simulation_id")
def sid(P):
    fi, fs = fmt7(P)
    d, n = P.str("DATE"), P.int("RUNID")
    P.assume(z3.And(n > 0, n < 10 ** 7))
    P.assume(matches(d, STAMP))
    P.fact(matches(fi(n), r"\d{7}"))
    for s, v in P.call(MODEL + "get_simulation_id", [n, d]):
        P.ensure(s, "date, two underscores, padded number", P.eng.eq(s, v, scat(scat(d, "__"), fi(n))))
        P.ensure(s, "recognised as the directory of a run", matches(v, RUN))


@proof("C10", "a run read back from its directory name has that name as its identity", MODEL + "get_simulation_id")
def sid2(P):
    fi, fs = fmt7(P)
    d, n = P.str("DATE"), P.str("RUNID")
    P.assume(matches(n, r"\d{7}"))
    P.assume(matches(d, STAMP))
    P.fact(fs(n) == n)
    for s, v in P.call(MODEL + "get_simulation_id", [n, d]):
        P.ensure(s, "the same name", P.eng.eq(s, v, scat(scat(d, "__"), n)))


@proof("C10", "without a date and number the identity is made from the current time and a seven digit number", MODEL + "get_simulation_id")
def sid3(P):
    fi, fs = fmt7(P)
    P.eng.trusted.add("datetime.today().strftime('%Y-%m-%d.%H%M%S.%f') is a date stamp of that layout")
    NOW = P.str("NOW")
    n0 = P.int("RUNID")
    P.assume(z3.And(n0 >= 0, n0 < 10 ** 7))
    fm = []

    def strftime(s, a):
        fm.append(a[0])
        return NOW
    P.eng.contracts["lib:datetime.datetime.today"] = lambda e, s, a, kw, node: [(s, SpecObj({"strftime": METHOD(strftime)}))]
    P.assume(matches(NOW, STAMP))
    m = z3.Int("m!")
    P.fact(z3.ForAll([m], z3.Implies(z3.And(m > 0, m < 10 ** 7), z3.Length(fi(m)) == 7), patterns=[fi(m)]))
    RND = P.int("RND")

    def randint(e, s, a, kw, node):
        s.assume(z3.And(toz(a[0]) <= RND, RND <= toz(a[1])))
        return [(s, RND)]
    P.eng.contracts["lib:random.randint"] = randint
    P.eng.trusted.add("random.randint(a, b) is between a and b")
    for s, v in P.call(MODEL + "get_simulation_id", [n0]):
        used = z3.If(n0 > 0, n0, RND)
        s.assume(matches(fi(used), r"\d{7}") if False else z3.Implies(z3.And(used > 0, used < 10 ** 7), matches(fi(used), r"\d{7}")))
        P.ensure(s, "the stamp has the layout that is recognised", fm == ["%Y-%m-%d.%H%M%S.%f"])
        P.ensure(s, "date and number", P.eng.eq(s, v, scat(scat(NOW, "__"), fi(used))))
        P.ensure(s, "a drawn number has seven digits", Implies(n0 == 0, z3.And(RND > 0, RND < 10 ** 7)))


def case_fields(P, given=True):
    return P.str("PROBLEM"), P.str("ALGO"), P.int("RUNID"), P.str("DIR"), P.str("ID")


@proof("C10", "a simulation keeps the identity it is given, and makes one when it is given none", MODEL + "SimulationCase")
def case(P):
    p, a, r, d, i = case_fields(P)
    made = P.str("MADE")
    P.eng.contracts[MODEL + "get_simulation_id"] = lambda e, s, args, kw, node: [(s, made)] if len(args) == 1 and not kw and e.eq(s, args[0], r) is True else [(s, P.str("ELSE"))]
    P.assume(i != z3.StringVal(""))
    for given in (True, False):
        for s, v in P.call(MODEL + "SimulationCase", [p, a, r, None, d] + ([i] if given else []), {"budgets": tok(P, "BUDGETS")}, st=P.st.copy()):
            for f, x in (("problem_name", p), ("algorithm_name", a), ("run_id", r), ("results_dir", d), ("id", i if given else made)):
                P.ensure(s, "%s as given" % f, P.eng.eq(s, fld(P, v, f, s), x))
            it = s.heap[fld(P, v, "params", s).addr].items
            P.ensure(s, "parameters kept", len(it) == 1 and it[0][0] == "budgets" and P.eng.eq(s, it[0][1], tok(P, "BUDGETS")) is True)


def mkcase(P, tag=""):
    return SpecObj({"results_dir": P.str("DIR" + tag), "problem_name": P.str("PROBLEM" + tag), "algorithm_name": P.str("ALGO" + tag), "id": P.str("ID" + tag)}), PathV([P.str(x + tag) for x in ("DIR", "PROBLEM", "ALGO", "ID")])


@proof("C10", "a stored result is read back from a place of its own, any labels", S + "Serializer")
def store_load(P):
    g = Ghost(P, dirs=())

    def mkdir(e, s, a, kw, node):
        P.ensure(s, "missing parent directories are made too", kw.get("parents", a[2] if len(a) > 2 else False) is True)
        g.set(s, "dirs", g.get(s, "dirs") + (a[0],))
        out = []
        for t, old in e.fork(s, P.bool("DIR_EXISTS")):
            if old and kw.get("exist_ok", False) is not True:
                e.safety_raise(t, "FileExistsError", node)
            else:
                out.append((t, None))
        return out
    P.eng.contracts["lib:path.mkdir"] = mkdir
    other = tok(P, "OTHER")
    fs = Files(P, lambda s, p: [(True, other)])
    c, path = mkcase(P)
    l1, l2 = P.str("LABEL1"), P.str("LABEL2")
    r1, r2 = tok(P, "RESULT1"), tok(P, "RESULT2")
    P.eng.merge_ok = False
    cls = P.get(S + "Serializer")
    for s, o in P.call(cls, [c]):
        P.ensure(s, "directory: results directory, problem, algorithm, identity", P.eng.eq(s, fld(P, o, "path", s), path))
        for s, p1 in P.call(P.method(o, "store"), [o, r1, l1], st=s):
            w = fs.written(s)
            P.ensure(s, "the directory is made first", len(g.get(s, "dirs")) == 1 and P.eng.eq(s, g.get(s, "dirs")[0], path) is True)
            P.ensure(s, "one file is written: the label with .pickle, in that directory", And(len(w) == 1, P.eng.eq(s, w[0][0], PathV(path.parts + (scat(l1, ".pickle"),))), w[0][1] is r1))
            P.ensure(s, "its place is returned", P.eng.eq(s, p1, w[0][0]))
            for s3, v in P.call(P.method(o, "load"), [o, l1], st=s.copy()):
                P.ensure(s3, "it is read back", P.eng.eq(s3, v, r1))
            s.assume(l1 != l2)
            for s2, p2 in P.call(P.method(o, "get_result_path"), [o, l2], st=s):
                P.ensure(s2, "another label has another place", Not(toz(P.eng.eq(s2, p2, p1))))
    # two simulations with different directories never share a file (paths are compared name by name)
    c2, path2 = mkcase(P, "2")
    for s, o in P.call(cls, [c], st=P.st.copy()):
        for s, o2 in P.call(cls, [c2], st=s):
            s.assume(z3.Or(*[x != y for x, y in zip(path.parts, path2.parts)]))
            for s, p1 in P.call(P.method(o, "get_result_path"), [o, l1], st=s):
                for s, p2 in P.call(P.method(o2, "get_result_path"), [o2, l2], st=s):
                    P.ensure(s, "another problem, algorithm, identity or directory has another place", Not(toz(P.eng.eq(s, p1, p2))))


@proof("C10", "a result read back carries the stored points and data, its label, place, run number and simulation", S + "ResultWithMetadata")
def meta(P):
    pop, fit, cost = tok(P, "POP"), tok(P, "FIT"), tok(P, "COST")
    res = P.call(S + "Result", [pop, fit], {"cost": cost})
    P.covers.clear()
    (s0, r), = res
    lab = P.str("LABEL")
    path = PathV([P.str(x) for x in ("DIR", "PROBLEM", "ALGO", "ID")] + [scat(lab, ".pickle")])
    c, no = SpecObj({}), P.int("RUNNO", 0)
    for s, v in P.call(S + "ResultWithMetadata", [r, path, no, c], st=s0):
        P.ensure(s, "population", P.eng.eq(s, fld(P, v, "population", s), pop))
        P.ensure(s, "fitnesses", P.eng.eq(s, fld(P, v, "fitnesses", s), fit))
        it = s.heap[fld(P, v, "additional_data", s).addr].items
        P.ensure(s, "additional data", len(it) == 1 and it[0][0] == "cost" and P.eng.eq(s, it[0][1], cost) is True)
        P.ensure(s, "label", P.eng.eq(s, fld(P, v, "name", s), lab))
        P.ensure(s, "place", P.eng.eq(s, fld(P, v, "path", s), path))
        P.ensure(s, "run number", toz(fld(P, v, "run_no", s)) == no)
        P.ensure(s, "simulation", fld(P, v, "simulation_case", s) is c)


VALID, DATE, RID = z3.Function("VALIDRUN", STR, z3.BoolSort()), z3.Function("DATEOF", STR, STR), z3.Function("RIDOF", STR, STR)


def run_regex(P):
    """the pattern for run directories: checked once (for every text) to accept exactly the run layout and to split it into date and number, then used by that contract"""
    seen = set()

    def h(e, s, a, kw, node):
        if not isinstance(a[0], str) or kw or len(a) != 2:
            raise Unsupported("re.fullmatch")
        if a[0] not in seen:
            seen.add(a[0])
            t = State()
            x = z3.String("ANYNAME")
            c, g = regex.fullmatch(e, t, a[0], x)
            if set(g) != {"rundate", "runid"}:
                raise Unsupported("groups of the pattern")
            e.oblige(t, "the pattern accepts exactly date__number", c == matches(x, RUN))
            t.assume(c)
            e.oblige(t, "its groups are the date and the number", z3.And(x == z3.Concat(g["rundate"], z3.StringVal("__"), g["runid"]), matches(g["rundate"], STAMP), matches(g["runid"], r"\d{7}")))
        nm = strz(a[1])
        gd = {"rundate": DATE(nm), "runid": RID(nm)}
        m = SpecObj({"groupdict": UFun(lambda e2, s2, args: [(s2, DictRef(e2.alloc(s2, HeapDict(tuple(gd.items())))))]), "group": UFun(lambda e2, s2, args: [(s2, gd[args[0]])]),
                     "__getitem__": UFun(lambda e2, s2, args: [(s2, gd[args[0]])])}, "match")
        return [(s, Opt.mk(Not(VALID(nm)), m))]
    P.eng.contracts["lib:re.fullmatch"] = h


@proof("C10", "the runs of a problem and algorithm are the run directories in ascending order, numbered from 0, each under its identity; anything else is ignored, any number of entries", N + "ResultsExtractor._each_run")
def each_run(P):
    P.inv_timeout(4000)
    n = P.int("n", 0)
    NAME = P.fn1("NAME", z3.IntSort(), STR)
    p, a, d = P.str("PROBLEM"), P.str("ALGO"), P.str("DIR")
    run_regex(P)
    entries = Seq(n, lambda k: PathV([d, p, a, NAME(toz(k))]))

    def iterdir(e, s, args, kw, node):
        if e.eq(s, args[0], PathV([d, p, a])) is not True:
            raise Unsupported("another directory listed")
        return [(s, P.lst(entries, s))]
    P.eng.contracts["lib:path.iterdir"] = iterdir
    # sorted: an ascending arrangement of the entries (their names differ, so it is the only one)
    SN = P.fn1("SORTEDNAME", z3.IntSort(), STR)
    srt = []

    def sort(e, s, args, kw, node):
        sq = P.seq(args[0], s)
        i = z3.Int("i!")
        if kw or sq is not entries:
            raise Unsupported("something else sorted")
        srt.append(s)
        return [(s, P.lst(Seq(n, lambda k: PathV([d, p, a, SN(toz(k))])), s))]
    P.eng.contracts["lib:sorted"] = sort
    P.eng.trusted.add("sorted() arranges the directory entries ascending (paths of one directory compare by name)")
    # the constructors, by their contracts (proved above): fields as given; the identity made of a date and a seven digit number is their join
    cls = P.get(MODEL + "SimulationCase")
    CP, CA, CR, CD, CI = (P.fn1("CASE_" + x, z3.IntSort(), STR) for x in ("P", "A", "R", "D", "I"))
    for f, fn in (("problem_name", CP), ("algorithm_name", CA), ("run_id", CR), ("results_dir", CD), ("id", CI)):
        P.st.heap[("F", cls.name, f)] = FMap(lambda t, fn=fn: fn(t))
    MK = P.fn1("MKCASE", STR, STR, STR, STR, STR, z3.IntSort())

    def mk(e, s, args, kw, node):
        full = dict(zip(["problem_name", "algorithm_name", "run_id", "renice", "results_dir", "id"], args))
        full.update(kw)
        xs = [strz(full[k]) for k in ("problem_name", "algorithm_name", "run_id", "results_dir", "id")]
        t = MK(*xs)
        e.fact(s, z3.And(*[fn(t) == x for fn, x in zip((CP, CA, CR, CD, CI), xs)]))
        return [(s, SymObj(cls, t))]
    P.eng.contracts[MODEL + "SimulationCase"] = mk
    JOIN = P.fn1("JOIN", STR, STR, STR)
    P.eng.contracts[MODEL + "get_simulation_id"] = lambda e, s, args, kw, node: [(s, JOIN(strz((list(args) + [kw.get("run_date")])[1]), strz(args[0])))]
    # proved above ("a run read back from its directory name has that name as its identity"), for names that match
    i = z3.Int("i!")
    P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, VALID(SN(i))), JOIN(DATE(SN(i)), RID(SN(i))) == SN(i)), patterns=[VALID(SN(i))]))
    CNT = P.fn1("VALIDBEFORE", z3.IntSort(), z3.IntSort())
    P.fact(CNT(0) == 0)
    P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), CNT(i + 1) == CNT(i) + z3.If(VALID(SN(i)), 1, 0)), patterns=[CNT(i + 1)]))
    obj = P.new(N + "ResultsExtractor")

    def inv(eng, st):
        me = st.frames[st.cur]
        nums = [nm for nm, v in me.items() if is_num(v) and not is_bool(v)]
        fid = st.cur

        def out(s):
            return s.heap[s.frames[fid]["__yield__"].addr].seq

        def entry(s, j):
            x = out(s).get(j)
            return (x[0].term, toz(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], SymObj) else None

        def counts(nm):
            return lambda s, k: toz(s.frames[fid][nm]) == CNT(toz(k))

        def placed(s, k):
            j = bvar()
            q = out(s)
            if q.is_lit and q.n == 0:
                return z3.BoolVal(True) if isinstance(k, int) else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k)), z3.Not(VALID(SN(j)))))
            e = entry(s, CNT(j))
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k), VALID(SN(j))), z3.And(CNT(j) >= 0, CNT(j) < toz(q.n), e[1] == CNT(j), CP(e[0]) == p, CA(e[0]) == a, CD(e[0]) == d, CR(e[0]) == RID(SN(j)), CI(e[0]) == SN(j))), patterns=[VALID(SN(j))])

        def mono(s, k):
            j = bvar()
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= toz(k)), z3.And(CNT(j) >= 0, CNT(j) <= CNT(toz(k)))), patterns=[CNT(j)])

        def before(s, k):
            j = bvar()
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k), VALID(SN(j))), CNT(j) < CNT(toz(k))), patterns=[VALID(SN(j))])
        return [lambda s, k: CNT(toz(k)) >= 0, mono, before, lambda s, k: toz(out(s).n) == CNT(toz(k)), placed] + [counts(nm) for nm in nums]
    P.eng.loop_inv = inv
    P.eng.inv_for = True
    for s, v in P.call(P.method(obj, "_each_run"), [obj, a, p, d]):
        q = P.seq(v, s)
        P.ensure(s, "as many as there are run directories", toz(q.n) == CNT(n))
        k = P.int("k")
        s.assume(z3.And(0 <= k, k < n, VALID(SN(k))))
        s.assume(CNT(k + 1) == CNT(k) + 1)
        c, no = q.get(CNT(k))
        P.ensure(s, "a run directory is numbered by its place among them", z3.And(0 <= CNT(k), CNT(k) < toz(q.n), toz(no) == CNT(k)))
        t = c.term
        P.ensure(s, "problem, algorithm and directory are those asked for", z3.And(CP(t) == p, CA(t) == a, CD(t) == d))
        P.ensure(s, "its identity is its name", CI(t) == SN(k))
        P.ensure(s, "its number is the one in the name", CR(t) == RID(SN(k)))
    P.ensure(P.st, "entries are visited in ascending order", bool(srt))


OKF, DIG = z3.Function("RESULTFILE", STR, z3.BoolSort()), z3.Function("DIGITSOF", STR, STR)


def file_regex(P):
    """the pattern for result files: checked once to accept exactly digits followed by .pickle and to give the digits"""
    seen = set()

    def h(e, s, a, kw, node):
        if not isinstance(a[0], str) or kw or len(a) != 2:
            raise Unsupported("re.fullmatch")
        t = State()
        x = z3.String("ANYNAME")
        c, g = regex.fullmatch(e, t, a[0], x)
        if len(g) != 1:
            raise Unsupported("groups of the pattern")
        if a[0] not in seen:
            seen.add(a[0])
            e.oblige(t, "the pattern accepts exactly digits.pickle", c == matches(x, r"[0-9]+\.pickle"))
            t.assume(c)
            e.oblige(t, "its group is the digits", z3.And(x == z3.Concat(list(g.values())[0], z3.StringVal(".pickle")), matches(list(g.values())[0], r"[0-9]+")))
        nm = strz(a[1])
        gd = {k: DIG(nm) for k in g}
        e.fact(s, z3.Implies(OKF(nm), matches(DIG(nm), r"[0-9]+")))
        m = SpecObj({"groupdict": UFun(lambda e2, s2, args: [(s2, DictRef(e2.alloc(s2, HeapDict(tuple(gd.items())))))]), "group": UFun(lambda e2, s2, args: [(s2, gd[args[0]] if args[0] in gd else DIG(nm))]),
                     "__getitem__": UFun(lambda e2, s2, args: [(s2, gd[args[0]] if args[0] in gd else DIG(nm))])}, "match")
        return [(s, Opt.mk(Not(OKF(nm)), m))]
    P.eng.contracts["lib:re.fullmatch"] = h


def extractor(P, kind):
    (s, o), = P.call(N + kind, [])
    P.covers.clear()
    P.st = s
    P.eng.spec_objs.add(o.addr)
    return o


def load_run(kind):
    def run(P):
        P.inv_timeout(4000)
        n = P.int("n", 0)
        SN, NAME = P.fn1("SORTEDNAME", z3.IntSort(), STR), P.fn1("NAME", z3.IntSort(), STR)
        c, path = mkcase(P)
        no = P.int("RUNNO", 0)
        file_regex(P)
        gone = P.bool("NODIRECTORY")
        entries = Seq(n, lambda k: PathV(path.parts + (NAME(toz(k)),)))
        srt = []

        def iterdir(e, s, args, kw, node):
            if e.eq(s, args[0], path) is not True:
                raise Unsupported("another directory listed")
            out = []
            for t, g in e.fork(s, gone):
                if g:
                    e.safety_raise(t, "FileNotFoundError", node)
                else:
                    out.append((t, P.lst(entries, t)))
            return out
        P.eng.contracts["lib:path.iterdir"] = iterdir

        def sort(e, s, args, kw, node):
            if kw or P.seq(args[0], s) is not entries:
                raise Unsupported("something else sorted")
            return [(s, P.lst(Seq(n, lambda k: PathV(path.parts + (SN(toz(k)),))), s))]
        P.eng.contracts["lib:sorted"] = sort
        ISDIR, DATA = P.fn1("ISDIR", STR, z3.BoolSort()), P.fn1("DATA", STR, z3.IntSort())

        def load(e, s, args, kw, node):
            # contract (proved): the content of label.pickle in the run's directory
            if e.eq(s, fld(P, args[0], "path", s), path) is not True:
                raise Unsupported("another run's results loaded")
            lab = str_of(args[1])
            out = []
            for t, g in e.fork(s, ISDIR(strz(lab))):
                if g:
                    e.safety_raise(t, "IsADirectoryError", node)
                else:
                    out.append((t, Tok(DATA(strz(lab)))))
            return out
        P.eng.contracts[S + "Serializer.load"] = load
        cls = P.get(S + "ResultWithMetadata")
        RDATA, RNAME, RNO = P.fn1("R_DATA", z3.IntSort(), z3.IntSort()), P.fn1("R_FILE", z3.IntSort(), STR), P.fn1("R_NO", z3.IntSort(), z3.IntSort())
        MK = P.fn1("MKRESULT", z3.IntSort(), STR, z3.IntSort(), z3.IntSort())

        def mk(e, s, args, kw, node):
            full = dict(zip(["result", "path", "run_no", "simulation_case"], args))
            full.update(kw)
            P.ensure(s, "a result carries its simulation", full["simulation_case"] is c)
            P.ensure(s, "and a place in the run's directory", And(len(full["path"].parts) == 5, P.eng.eq(s, PathV(full["path"].parts[:4]), path)))
            t = MK(full["result"].t, strz(full["path"].parts[-1]), toz(full["run_no"]))
            e.fact(s, z3.And(RDATA(t) == full["result"].t, RNAME(t) == strz(full["path"].parts[-1]), RNO(t) == toz(full["run_no"])))
            return [(s, SymObj(cls, t))]
        P.eng.contracts[S + "ResultWithMetadata"] = mk
        label = lambda j: STRI(z3.StrToInt(DIG(SN(j))))
        good = lambda j: z3.And(OKF(SN(j)), z3.Not(ISDIR(label(j))))
        CNT = P.fn1("GOODBEFORE", z3.IntSort(), z3.IntSort())
        G = P.fn1("GOOD", z3.IntSort(), z3.BoolSort())
        i = z3.Int("i!")
        P.fact(CNT(0) == 0)
        P.fact(z3.ForAll([i], G(i) == good(i), patterns=[G(i)]))
        P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), CNT(i + 1) == CNT(i) + z3.If(G(i), 1, 0)), patterns=[CNT(i + 1)]))
        obj = extractor(P, kind)

        def inv(eng, st):
            fid = st.cur
            lists = [nm for nm, v in st.frames[fid].items() if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef))]

            def of(nm):
                out = lambda s: s.heap[s.frames[fid][nm].addr].seq

                def placed(s, k):
                    j = bvar()
                    q = out(s)
                    if q.is_lit and q.n == 0:
                        return z3.BoolVal(True) if isinstance(k, int) else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k)), z3.Not(G(j))))
                    t = q.get(CNT(j)).term
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k), G(j)), z3.And(CNT(j) >= 0, CNT(j) < toz(q.n), RDATA(t) == DATA(label(j)), RNAME(t) == SN(j), RNO(t) == no)), patterns=[G(j)])
                return [lambda s, k: toz(out(s).n) == CNT(toz(k)), placed]

            def before(s, k):
                j = bvar()
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(k), G(j)), CNT(j) < CNT(toz(k))), patterns=[G(j)])

            def mono(s, k):
                if not isinstance(k, int):
                    g = P.eng.fresh("g", z3.BoolSort())
                    s.assume(g == G(toz(k)))
                    s.assume(g == G(toz(k) - 1)) if False else None
                    h = P.eng.fresh("g", z3.BoolSort())
                    s.assume(h == G(toz(k) - 1))
                j = bvar()
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= toz(k)), z3.And(CNT(j) >= 0, CNT(j) <= CNT(toz(k)))), patterns=[CNT(j)])
            return [lambda s, k: CNT(toz(k)) >= 0, mono, before] + [c for nm in lists for c in of(nm)]
        P.eng.loop_inv = inv
        P.eng.inv_for = True
        for s, v in P.call(P.method(obj, "load_number_measured_results"), [obj, c, no]):
            q = P.seq(v, s)
            P.ensure(s, "one result per result file, none without the directory", toz(q.n) == z3.If(gone, 0, CNT(n)))
            k = P.int("k")
            s.assume(z3.And(0 <= k, k < n, z3.Not(gone), G(k)))
            if q.is_lit and q.n == 0:
                continue
            t = q.get(CNT(k)).term
            P.ensure(s, "a result file is among them once", z3.And(0 <= CNT(k), CNT(k) < toz(q.n)))
            P.ensure(s, "with the content of the file of that number", RDATA(t) == DATA(label(k)))
            P.ensure(s, "under the place it was found at", RNAME(t) == SN(k))
            P.ensure(s, "with the number of the run", RNO(t) == no)
    return run


for _k in ("BudgetResultsExtractor", "TimeResultsExtractor"):
    proof("C10", "every result file of a run is loaded once, from its own file, and nothing else is, any number of entries (%s)" % _k, N + "NumberMeasuredResultExtractor.load_number_measured_results")(load_run(_k))


def grouping(kind, prop, runs, per):
    def run(P):
        P.eng.merge_ok = False
        obj = extractor(P, kind)
        cases = [SpecObj({"n": i}) for i in range(runs)]
        num_ = [[P.int("NUMBER%d_%d" % (r, j), 0) for j in range(per)] for r in range(runs)]
        res = [[SpecObj({"name": STRI(num_[r][j])}) for j in range(per)] for r in range(runs)]
        for r in range(runs):
            for j in range(per):
                for j2 in range(j):
                    P.assume(num_[r][j] != num_[r][j2])
                # trusted: the decimal text of a number is digits and reads as that number
                P.fact(z3.And(matches(STRI(num_[r][j]), r"[0-9]+"), z3.StrToInt(STRI(num_[r][j])) == num_[r][j]))
        P.eng.trusted.add("int(str(n)) == n for n >= 0")

        def of_run(e, s, a, kw, node):
            i = cases.index(a[1])
            P.ensure(s, "a run's results are loaded with its number", e.eq(s, a[2], i))
            return [(s, P.lst(Seq.lit(res[i]), s))]
        P.eng.contracts[N + "NumberMeasuredResultExtractor.load_number_measured_results"] = of_run
        asked = []

        def each(e, s, a, kw, node):
            asked.append(tuple(a[1:]))
            return [(s, P.lst(Seq.lit([(c, i) for i, c in enumerate(cases)]), s))]
        P.eng.contracts[N + "ResultsExtractor._each_run"] = each
        x, y, z = tok(P, "A"), tok(P, "B"), tok(P, "C")
        for s, v in P.call(P.method(obj, "load"), [obj, x, y, z]):
            out = P.seq(v, s)
            P.ensure(s, "groups are listed", out.is_lit)
            got = []
            for g in out.items():
                lst, cfg = g
                it = s.heap[cfg.addr].items
                P.ensure(s, "each group under the label kind", len(it) == 1 and it[0][0] == prop)
                got.append((toz(it[0][1]), P.seq(lst, s).items()))
            for (n1, _), (n2, _) in zip(got, got[1:]):
                P.ensure(s, "labels ascend", n1 < n2)
            flat = [(n, r) for n, rs in got for r in rs]
            P.ensure(s, "no result twice", len(flat) == runs * per)
            for r in range(runs):
                for j in range(per):
                    P.ensure(s, "every result is in the group of its number", Or(*[n == num_[r][j] for n, x_ in flat if x_ is res[r][j]]))
            P.ensure(s, "no empty group", all(rs for _, rs in got))
        P.ensure(P.st, "the runs of that problem, algorithm and directory", len(asked) >= 1 and all(len(t) == 3 and t[0] is x and t[1] is y and t[2] is z for t in asked))
    return run


for _k, _p in (("BudgetResultsExtractor", "budget"), ("TimeResultsExtractor", "time")):
    for _r, _n in ((2, 2), (3, 1)):
        proof("C10", "results are grouped by number, each once, groups ascending (%s, %d runs of %d)" % (_k, _r, _n), N + "NumberMeasuredResultExtractor.load_result",
              bounded="%d runs with %d results each; numbers arbitrary" % (_r, _n))(grouping(_k, _p, _r, _n))
