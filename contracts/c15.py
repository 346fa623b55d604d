from .lib import *
from pydv import loops, solve

I, Rl = z3.IntSort(), z3.RealSort()

B = "statistic.stats_bootstrap:"


def sample(P, nm="X", lo=1):
    n = P.int("n" + nm, lo)
    return n, P.reals(nm, n)


@proof("C15", "mean of any sample", B + "average")
def avg(P):
    n, xs = sample(P, lo=0)
    for s, v in P.call(B + "average", [P.lst(xs)]):
        if is_inf(v):
            P.ensure(s, "minus infinity only for the empty sample", n == 0)
            P.ensure(s, "sign", v < 0)
        else:
            P.ensure(s, "the mean", z3.And(n >= 1, R(v) * z3.ToReal(n) == SUM(P, n, lambda k: xs.get(k))))


@proof("C15", "resampling draws only from the sample", B + "sample_wr")
def swr(P):
    n, xs = sample(P)
    k = P.int("k", 0)
    l = P.lst(xs)
    for s, v in P.call(B + "sample_wr", [l, k]):
        r = P.seq(v, s)
        P.ensure(s, "requested size", toz(r.n) == k)
        P.ensure(s, "every element comes from the sample", forall(k, lambda i: exists(n, lambda j: R(r.get(i)) == toz(xs.get(j)))))
        q = P.seq(l, s)
        P.ensure(s, "sample not modified", z3.And(toz(q.n) == n, toz(forall(n, lambda i: R(q.get(i)) == toz(xs.get(i))))))


@proof("C15", "bootstrap interval is ordered and made of resample statistics", B + "bootstrap")
def boot(P):
    n, xs = sample(P)
    m, k, a = P.int("resamples", 1), P.int("k", 0), P.real("alpha")
    P.assume(z3.And(a > 0, a <= z3.RealVal("1/2")))
    # the statistic of a resample: any number that depends on the resample, named by its draw
    st_of = {}

    def swr_h(eng, st, args, kw, node):
        t = eng.fresh_int("draw")
        eng.oblige(st, "resamples are drawn from the sample and have the requested size", z3.And(eng.seq_of(args[0], st).get is xs.get, toz(num(args[1])) == k))
        return [(st, Tok(t))]
    P.eng.contracts[B + "sample_wr"] = swr_h
    F = P.fn1("STAT", z3.IntSort(), z3.RealSort())
    G = P.real("STAT_SAMPLE")

    def stat(eng, st, args, kw, node):
        if isinstance(args[0], Tok):
            return [(st, F(args[0].t))]
        P.ensure(st, "metric is the statistic of the sample itself", eng.seq_of(args[0], st).get is xs.get)
        return [(st, G)]
    for s, v in P.call(B + "bootstrap", [P.lst(xs), UF(stat), m, k, a]):
        fr, to, me = (dget(P, s, v, x) for x in ("from", "to", "metrics"))
        P.ensure(s, "ordered", R(fr) <= R(to))
        P.ensure(s, "reported metric is the statistic of the sample", R(me) == G)
        t = z3.Int("t")
        P.ensure(s, "lower end is a resample's statistic", z3.Exists([t], R(fr) == F(t)))
        P.ensure(s, "upper end is a resample's statistic", z3.Exists([t], R(to) == F(t)))


@proof("C15", "weak winners are exactly those within the tolerated ratio", "statistic.ranking:get_weak_winners")
def weak(P):
    n = P.int("n", 0)
    al, sc = P.fn1("ALGO", z3.IntSort(), z3.IntSort()), P.fn1("SCORE", z3.IntSort(), z3.RealSort())
    w, ws, er = P.int("winner"), P.real("wscore"), P.real("error_rate")
    k = z3.Int("k!s")
    P.fact(z3.ForAll([k], sc(k) >= 0, patterns=[sc(k)]))
    P.assume(z3.And(ws >= 0, er >= 0, er <= 1))
    eps = z3.RealVal("1/%d" % 2 ** 52)
    l = P.lst(Seq(n, lambda i: (al(toz(i)), sc(toz(i)))))
    for s, v in P.call("statistic.ranking:get_weak_winners", [l, (w, ws), er]):
        r = P.seq(v, s)
        ok = lambda i: z3.And(al(i) != w, z3.If(sc(i) < ws, (sc(i) + eps) >= (1 - er) * (ws + eps), (ws + eps) >= (1 - er) * (sc(i) + eps)))
        P.ensure(s, "only tolerated others", forall(r.n, lambda i: exists(n, lambda j: z3.And(ok(j), toz(num(r.get(i)[0])) == al(j), R(r.get(i)[1]) == sc(j)))))
        P.ensure(s, "all of them", forall(n, lambda j: z3.Implies(ok(j), toz(exists(r.n, lambda i: z3.And(toz(num(r.get(i)[0])) == al(j), R(r.get(i)[1]) == sc(j)))))))


# ------------------------------------------------------------------ the summary of one sample
DS = ClassVal("data process", None, [], {}, None)


@proof("C15", "fences, mean, deviation and outliers equal their definitions, any sample", B + "yield_analysis")
def analysis(P):
    n, xs = sample(P)
    P.assume(xs.get(0) == xs.get(0))
    boot_n = P.int("resamples", 1)
    PCT = P.fn1("PERCENTILE", z3.RealSort(), z3.RealSort())
    P.eng.trusted.add("numpy.percentile(xs, q) is the q-th percentile of xs; the 25th is at most the 75th; some element lies within the inner fences")
    q1, q3 = PCT(z3.RealVal(25)), PCT(z3.RealVal(75))
    iq = q3 - q1
    lo, hi, lo3, hi3 = q1 - z3.RealVal("3/2") * iq, q3 + z3.RealVal("3/2") * iq, q1 - 3 * iq, q3 + 3 * iq
    P.fact(q1 <= q3)

    def pct(e, st, a, kw, node):
        P.ensure(st, "percentiles of the sample", e.seq_of(a[0], st).get is xs.get)
        return [(st, PCT(toreal(num(a[1]))))]
    P.eng.contracts["lib:numpy.percentile"] = pct
    inside = lambda x: z3.And(lo <= x, x <= hi)
    cnt = lambda c: SUM(P, n, lambda k: z3.If(c(xs.get(k)), z3.IntVal(1), z3.IntVal(0)))
    out = {}

    def boot_h(e, st, a, kw, node):
        a = list(a) + [kw[k] for k in ("population", "f", "n", "k", "alpha")[len(a):]]
        P.ensure(st, "bootstrap of the sample", e.seq_of(a[0], st).get is xs.get)
        P.ensure(st, "bootstrap: number of resamples, size and level",
                 z3.And(toz(num(a[2])) == boot_n, toz(num(a[3])) == z3.ToInt(z3.ToReal(n) * z3.RealVal("0.66")), R(a[4]) == z3.RealVal("0.025")))
        fr, to = e.fresh_real("from"), e.fresh_real("to")
        st.assume(fr <= to)
        res = []
        for s2, m in e.call(a[1], [a[0]], {}, st, node):
            out["to"], out["from"] = to, fr
            res.append((s2, P.dct([("confidence", z3.RealVal(95)), ("from", fr), ("to", to), ("metrics", m)], s2)))
        return res
    P.eng.contracts[B + "bootstrap"] = boot_h
    # a mean is named by the sum and the number of its values, a root by its argument: no arithmetic about them is needed
    MEAN, ROOT = P.fn1("MEAN", Rl, I, Rl), P.fn1("ROOT", Rl, Rl)

    def root_h(e, st, a, kw, node):
        P.ensure(st, "no root of a negative number", R(a[0]) >= 0)
        st.assume(ROOT(R(a[0])) >= 0)
        return [(st, ROOT(R(a[0])))]
    P.eng.contracts["lib:math.sqrt"] = root_h

    def avg_h(e, st, a, kw, node):
        """contract of average (proved above); a mean of non-negative numbers is non-negative"""
        sq = e.seq_of(a[0], st)
        P.ensure(st, "a mean is only taken of something", toz(sq.n) > 0)
        st.assume(toz(sq.n) > 0)
        v = MEAN(toreal(num(loops.red_sum(e, st, sq))), toz(sq.n))
        k = e.fresh_int("any")
        if solve.check([R(sq.get(k)) < 0], timeout=1000)[0] == z3.unsat:
            st.assume(v >= 0)
        return [(st, v)]
    P.eng.contracts[B + "average"] = avg_h
    l = P.lst(xs)
    mean = MEAN(SUM(P, n, lambda k: xs.get(k)), n)
    dev = ROOT(MEAN(SUM(P, n, lambda k: mul(sub(xs.get(k), mean), sub(xs.get(k), mean))), n))
    P.assume(cnt(inside) >= 1)
    for s, v in P.call(B + "yield_analysis", [l, boot_n]):
        g = lambda k: dget(P, s, v, k)
        for k, t in (("low_inn_fence", lo), ("upp_inn_fence", hi), ("low_out_fence", lo3), ("upp_out_fence", hi3)):
            P.ensure(s, k, R(g(k)) == t)
        none, share = z3.StringVal("--"), lambda c: z3.Concat(z3.Function("fmt:6.2f", z3.RealSort(), STR)(z3.ToReal(c) * 100 / z3.ToReal(n)), z3.StringVal("%"))
        ext = cnt(lambda x: z3.Or(x < lo3, hi3 < x))
        mild = cnt(lambda x: z3.Or(x < lo, hi < x)) - ext
        for k, c in (("extr_outliers", ext), ("mild_outliers", mild)):
            P.ensure(s, k, toz(g(k)) == z3.If(c > 0, share(c), none))
        over = lambda f: MEAN(SUM(P, n, lambda k: z3.If(inside(xs.get(k)), f(xs.get(k)), z3.RealVal(0))), cnt(inside))
        mno = over(lambda x: x)
        sno = over(lambda x: mul(sub(x, mno), sub(x, mno)))
        P.ensure(s, "mean without outliers", R(g("metrics_nooutliers")) == mno)
        P.ensure(s, "deviation without outliers", R(g("stdev_nooutliers")) == ROOT(sno))
        P.ensure(s, "mean", R(g("mean")) == mean)
        for k, a, b in (("mean_nooutliers_diff", R(g("metrics_nooutliers")), R(g("mean"))), ("stdev_nooutliers_diff", R(g("stdev_nooutliers")), R(g("stdev")))):
            if is_inf(g(k)):
                P.ensure(s, k + " has no value only for zero", b == 0)
            else:
                P.ensure(s, k, z3.And(b != 0, R(g(k)) * b == 100 * (a - b)))
        bd = g("btstrpd")
        P.ensure(s, "the bootstrap is of the mean", R(dget(P, s, bd, "metrics")) == mean)
        if not is_inf(g("pr_dispersion")):
            P.ensure(s, "dispersion", R(g("pr_dispersion")) * mean == 100 * (R(dget(P, s, bd, "to")) - R(dget(P, s, bd, "from"))))
            P.ensure(s, "warning about dispersion", (toz(g("dispersion_warn")) != z3.StringVal("")) == (absr(R(g("pr_dispersion"))) > 30))
        low, up = R(g("mean")) - 3 * R(g("stdev")), R(g("mean")) + 3 * R(g("stdev"))
        P.ensure(s, "three deviations around the mean", z3.And(R(g("lower")) == low, R(g("upper")) == up))
        P.ensure(s, "a good benchmark has 95 per cent within them", (toz(g("goodbench")) == z3.StringVal("\u2713")) == (z3.ToReal(cnt(lambda x: z3.And(low <= x, x <= up))) >= z3.RealVal("0.95") * z3.ToReal(n)))
        P.ensure(s, "deviation", R(g("stdev")) == dev)


@proof("C15", "a result is accepted exactly when its mean cost does not exceed the budget plus tolerance", B + "validate_cost")
def accepted(P):
    n, m = P.int("metrics", 0), P.int("values", 1)
    NAME, COST = P.fn1("NAME", I, STR), P.fn1("COST", I, I, Rl)
    budget, delta, boot = P.int("budget", 0), P.int("delta", 0), P.int("boot", 1)

    def summary(e, st, a, kw, node):
        """contract of the analysis (proved above): its metric is the mean of the sample"""
        sq = e.seq_of(a[0], st)
        return [(st, P.dct([("btstrpd", P.dct([("metrics", toreal(num(loops.red_sum(e, st, sq))) / z3.ToReal(toz(sq.n)))], st))], st))]
    P.eng.contracts[B + "yield_analysis"] = summary
    an = P.lst(Seq(n, lambda i: (NAME(toz(i)), Opaque("label"), Seq(m, lambda j: UFun(lambda e, s, a: [(s, COST(toz(i), toz(j)))], "value")))))
    res = P.dct([("budget", budget), ("analysis", an)])
    mean = lambda i: SUM(P, m, lambda j: COST(i, j)) / z3.ToReal(m)
    i, first = z3.Int("i"), P.int("first")
    is_cost = lambda t: NAME(t) == z3.StringVal("cost")
    for s, v in P.call(B + "validate_cost", [res, boot, delta]):
        b = toz(P.eng.truth(v, s))
        none_before = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < first), z3.Not(is_cost(i))))
        P.ensure(s, "judged by the mean cost", z3.Implies(z3.And(0 <= first, first < n, is_cost(first), none_before), b == (mean(first) <= z3.ToReal(budget + delta))))
        P.ensure(s, "without a cost nothing is objected to", z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(is_cost(i)))), b))


@proof("C15", "the largest acceptable budget is chosen, any number of results", B + "find_acceptable_result_for_budget")
def acceptable(P):
    n, boot = P.int("n", 1), P.int("boot", 1)
    BUD, COST = P.fn1("BUDGET", I, I), P.fn1("MEANCOST", I, Rl)
    RES = ClassVal("dict:result", None, [], {}, None)
    top = BUD(n - 1) + 500

    def valid(e, st, a, kw, node):
        """contract of validate_cost (proved above)"""
        d = a[2] if len(a) > 2 else kw.get("delta", 500)
        if not (isinstance(a[0], SymObj) and a[0].cls is RES):
            raise Unsupported("result of another form")
        t = a[0].term
        return [(st, COST(t) <= z3.ToReal(BUD(t) + toz(num(d))))]
    P.eng.contracts[B + "validate_cost"] = valid
    P.st.heap[("F", RES.name, "budget")] = FMap(lambda t: BUD(t))
    l = P.lst(Seq(n, lambda i: SymObj(RES, toz(i))))

    def cands(eng, st):
        nums = [nm for nm, v in st.frames[st.cur].items() if not nm.startswith("__") and not is_bool(v) and is_num(v)]
        val = lambda s, nm: toz(num(s.frames[s.cur][nm]))
        j = z3.Int("j!seen")
        out = [lambda s, k: z3.ForAll([j], z3.Implies(z3.And(n - 1 - toz(k) < j, j < n), COST(j) > z3.ToReal(top)))]
        for a in nums:
            out.append(lambda s, k, a=a: val(s, a) == z3.If(toz(k) == 0, BUD(n - 1), BUD(n - toz(k))))
            out += [lambda s, k, a=a, b=b: val(s, a) + val(s, b) == top for b in nums if a < b]
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    j = z3.Int("j")
    for s, v in P.call(B + "find_acceptable_result_for_budget", [l, boot]):
        ok = lambda t: COST(t) <= z3.ToReal(top)
        if v is None:
            P.ensure(s, "none is chosen only when none is acceptable", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(ok(j)))))
        elif isinstance(v, SymObj) and v.cls is RES:
            P.ensure(s, "an acceptable one is chosen", z3.And(0 <= v.term, v.term < n, ok(v.term)))
            P.ensure(s, "no larger budget is acceptable", z3.ForAll([j], z3.Implies(z3.And(v.term < j, j < n), z3.Not(ok(j)))))
        else:
            raise Unsupported("answer of another form")
