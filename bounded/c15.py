"""C15: statistical summaries match their definitions and respect the sample"""
from gens import *

SB = "statistic.stats_bootstrap:"


def sample(rng, n=None):
    n = n or rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 20, 41])
    k = rng.randrange(7)
    if k == 0:
        xs = [float(rng.randint(0, 3)) for _ in range(n)]
    elif k == 1:
        xs = [rng.uniform(-1, 1) for _ in range(n)]
    elif k == 2:
        xs = [rng.gauss(100, 5) for _ in range(n)]
    elif k == 3:
        xs = [rng.choice([1.0, 1.0, 1.0, 2.0, 50.0, -40.0]) for _ in range(n)]
    elif k == 4:
        xs = [rng.randint(0, 1000) for _ in range(n)]
    elif k == 5:
        xs = [0.1] * n
    else:
        xs = [rng.uniform(10, 11) for _ in range(n)]
        for _ in range(rng.randint(0, 2)):
            xs[rng.randrange(n)] = rng.choice([1e3, -1e3, 14.0, 8.0])
    return xs


def pct(xs, q):
    s = sorted(xs)
    h = (len(s) - 1) * q
    i = int(math.floor(h))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (h - i)


def mean(xs):
    return math.fsum(xs) / len(xs)


def sd(xs):
    m = mean(xs)
    return math.sqrt(math.fsum((x - m) ** 2 for x in xs) / len(xs))


def c_sample(B):
    f = B.get(SB + "sample_wr")
    for _ in B.loop(600, 10000):
        xs = sample(B.rng)
        k = B.rng.choice([0, 1, 2, 5, 30])
        B.case((xs, k))
        ok, r = B.run((xs, k), f, list(xs), k)
        if ok:
            B.expect(len(r) == k and all(any(y is x or y == x for x in xs) for y in r), (xs, k), "sample %r" % r)
    # with enough draws every element turns up
    for _ in B.loop(20, 100):
        n = B.rng.choice([1, 2, 5, 9])
        xs = list(range(n))
        B.case(("coverage", n))
        ok, r = B.run(("coverage", n), f, list(xs), 400 * n)
        if ok:
            B.expect(set(r) == set(xs), ("coverage", n), "of %d elements only %s are ever drawn" % (n, sorted(set(r))))


def c_average(B):
    f = B.get(SB + "average")
    for _ in B.loop(600, 10000):
        xs = sample(B.rng)
        B.case(xs)
        ok, r = B.run(xs, f, list(xs))
        if ok:
            B.expect(close(r, mean(xs), 1e-9, 1e-9), xs, "average %r, expected %r" % (r, mean(xs)))


def c_bootstrap(B):
    f, avg = B.get(SB + "bootstrap"), B.get(SB + "average")
    for _ in B.loop(500, 8000):
        rng = B.rng
        xs = sample(rng)
        n, k, alpha = rng.choice([1, 2, 3, 10, 40, 41, 100]), rng.choice([1, 2, 5, max(1, int(len(xs) * 0.66))]), rng.choice([0.025, 0.05, 0.1, 0.25, 0.4])
        inp = (xs, n, k, alpha)
        B.case(inp)
        seen = []

        def stat(ys):
            v = avg(ys)
            seen.append((list(ys), v))
            return v
        ok, r = B.run(inp, f, list(xs), stat, n, k, alpha)
        if not ok:
            continue
        B.expect(min(xs) - 1e-9 <= r["from"] <= r["to"] <= max(xs) + 1e-9, inp, "interval [%r, %r] of a sample in [%r, %r]" % (r["from"], r["to"], min(xs), max(xs)))
        B.expect(close(r["metrics"], mean(xs), 1e-9, 1e-9), inp, "metrics %r, mean %r" % (r["metrics"], mean(xs)))
        B.expect(close(r["confidence"], 100 * (1 - 2 * alpha), 1e-9), inp, "confidence %r" % r["confidence"])
        # the statistic is evaluated on n resamples of size k from the sample, and once on the sample itself
        res = [(ys, v) for ys, v in seen]
        whole = [i for i, (ys, v) in enumerate(res) if sorted(ys) == sorted(xs)]
        B.expect(all(y in xs for ys, _ in res for y in ys), inp, "a resample holds a value outside the sample")
        if len(res) == n + 1 and whole:
            del res[whole[-1]]
            if all(len(ys) == k for ys, _ in res):
                vs = sorted(v for _, v in res)
                lo, hi = vs[int(n * alpha)], vs[min(n - 1, int(n * (1 - alpha)))]
                B.expect(r["from"] == lo and r["to"] == hi, inp, "interval [%r, %r], the %g / %g quantiles of the resamples are %r, %r" % (r["from"], r["to"], alpha, 1 - alpha, lo, hi))
            else:
                B.fail(inp, "resample sizes %s, expected %d" % (sorted({len(ys) for ys, _ in res}), k))
        else:
            B.fail(inp, "%d evaluations of the statistic for %d resamples" % (len(seen), n))


def c_analysis(B):
    f = B.get(SB + "yield_analysis")
    for _ in B.loop(1200, 15000):
        xs = sample(B.rng)
        boot = B.rng.choice([1, 5, 20, 50])
        inp = (xs, boot)
        B.case(inp)
        ok, r = B.run(inp, f, list(xs), boot)
        if not ok:
            continue
        q1, q3 = pct(xs, 0.25), pct(xs, 0.75)
        iq = q3 - q1
        sc = max(1.0, max(abs(x) for x in xs))

        def eq(key, v, tol=1e-9):
            B.expect(r[key] == v or abs(r[key] - v) <= tol * max(sc, abs(v)), (inp, key), "%s is %r, expected %r" % (key, r[key], v))
        eq("low_inn_fence", q1 - 1.5 * iq)
        eq("upp_inn_fence", q3 + 1.5 * iq)
        eq("low_out_fence", q1 - 3 * iq)
        eq("upp_out_fence", q3 + 3 * iq)
        m, s = mean(xs), sd(xs)
        eq("mean", m)
        eq("stdev", s, 1e-7)
        eq("lower", m - 3 * s, 1e-6)
        eq("upper", m + 3 * s, 1e-6)
        li, ui, lo, uo = r["low_inn_fence"], r["upp_inn_fence"], r["low_out_fence"], r["upp_out_fence"]
        inl = [x for x in xs if li <= x <= ui]
        extr = len([x for x in xs if x < lo or x > uo])
        mild = len([x for x in xs if x < li or x > ui]) - extr
        share = lambda c: "--" if c == 0 else "{0:6.2f}%".format(c * 100.0 / len(xs))
        B.expect(r["extr_outliers"] == share(extr), inp, "extreme outliers %r, expected %r" % (r["extr_outliers"], share(extr)))
        B.expect(r["mild_outliers"] == share(mild), inp, "mild outliers %r, expected %r" % (r["mild_outliers"], share(mild)))
        mn, sn = mean(inl), sd(inl)
        eq("metrics_nooutliers", mn)
        eq("stdev_nooutliers", sn, 1e-7)
        if abs(m) > 1e-6 * sc:
            B.expect(close(r["mean_nooutliers_diff"], 100.0 * (mn - m) / m, 1e-6, 1e-6), inp, "mean_nooutliers_diff %r, expected %r" % (r["mean_nooutliers_diff"], 100.0 * (mn - m) / m))
        if s > 1e-6 * sc:
            B.expect(close(r["stdev_nooutliers_diff"], 100.0 * (sn - s) / s, 1e-5, 1e-5), inp, "stdev_nooutliers_diff %r, expected %r" % (r["stdev_nooutliers_diff"], 100.0 * (sn - s) / s))
            good = len([x for x in xs if r["lower"] <= x <= r["upper"]]) >= 0.95 * len(xs)
            B.expect((r["goodbench"] == "✓") == good, inp, "goodbench %r" % r["goodbench"])
        b = r["btstrpd"]
        if len(xs) > 1:
            B.expect(min(xs) - 1e-9 * sc <= b["from"] <= b["to"] <= max(xs) + 1e-9 * sc, inp, "bootstrap interval %r of a sample in [%r, %r]" % (b, min(xs), max(xs)))
            if abs(m) > 1e-6 * sc:
                d = 100.0 * (b["to"] - b["from"]) / m
                B.expect(close(r["pr_dispersion"], d, 1e-6, 1e-6), inp, "dispersion %r, expected %r" % (r["pr_dispersion"], d))
                if abs(abs(d) - 30) > 1e-6:
                    B.expect(bool(r["dispersion_warn"]) == (abs(d) > 30.0), inp, "dispersion warning %r for %r%%" % (r["dispersion_warn"], d))
        B.expect(close(b["metrics"], m, 1e-9, 1e-9 * sc), inp, "bootstrap metric %r, mean %r" % (b["metrics"], m))
        B.expect(close(b["confidence"], 95.0, 1e-9), inp, "confidence %r" % b["confidence"])


def result(budget, costs, calls=None):
    def thunk(c):
        return lambda: c
    an = [("gd", "x", [thunk(1.0)]), ("cost", "cost", [thunk(c) for c in costs]), ("igd", "y", [thunk(1e9)])]
    return {"budget": budget, "analysis": an}


def c_cost(B):
    v, fa = B.get(SB + "validate_cost"), B.get(SB + "find_acceptable_result_for_budget")
    for _ in B.loop(500, 8000):
        rng = B.rng
        budget = rng.choice([0, 40, 500, 1000])
        delta = rng.choice([None, 0, 10, 500, 500])
        d = 500 if delta is None else delta
        c0 = budget + d + rng.choice([-100, -1, 0, 0, 1, 2, 300])
        off = rng.choice([0, 3, 50])
        costs = [c0] if rng.random() < 0.3 else [c0 - off, c0 + off, c0]
        inp = (budget, costs, delta)
        B.case(inp)
        ok, r = B.run(inp, v, result(budget, costs), 3) if delta is None else B.run(inp, v, result(budget, costs), 3, delta)
        if ok:
            B.expect(bool(r) == (mean(costs) <= budget + d), inp, "accepted %r: mean cost %r, budget %r + %r" % (r, mean(costs), budget, d))
    for _ in B.loop(400, 6000):
        rng = B.rng
        buds = sorted(rng.sample([10, 40, 100, 500, 501, 1000, 1500, 3000, 9000], rng.choice([1, 2, 3, 5])))
        top = buds[-1] + 500
        rs = [result(b, [top + rng.choice([-700, -500, -1, 0, 1, 2, 400])]) for b in buds]
        inp = [(b, r["analysis"][1][2][0]()) for b, r in zip(buds, rs)]
        B.case(inp)
        ok, r = B.run(inp, fa, list(rs), 3)
        if ok:
            good = [x for x in rs if x["analysis"][1][2][0]() <= top]
            exp = good[-1] if good else None
            B.expect(r is exp, inp, "chose %s, expected %s" % (r and r["budget"], exp and exp["budget"]))
    # no cost metric: nothing to object to
    ok, r = B.run("no cost metric", v, {"budget": 1, "analysis": [("gd", "x", [lambda: 1e9])]}, 3)
    B.expect(ok and bool(r), "no cost metric", "rejected %r" % r)


def c_weak(B):
    f = B.get("statistic.ranking:get_weak_winners")
    tol, best = B.opt("statistic.ranking:winner_tolerance"), B.opt("statistic.ranking:best_func")
    for _ in B.loop(600, 10000):
        rng = B.rng
        err = rng.choice([0.05, 0.005, 0.1, 0.5])
        base = rng.choice([1.0, 100.0, 1e-3, 0.3])
        sc = [("a%d" % i, base * rng.choice([1.0, 1 - err / 2, 1 + err / 2, 1 - 2 * err, 1 + 2 * err, 1.0 + err * 0.99, 1 / (1 - err) * 1.0001, (1 - err) * 1.0001, (1 - err) * 0.9999, 0.0, 3.0])) for i in range(rng.choice([1, 2, 4]))]
        pick = rng.choice([min, max])
        w = pick(sc, key=lambda x: x[1])
        inp = (sc, w, err)
        B.case(inp)
        ok, r = B.run(inp, f, list(sc), w, err)
        if not ok:
            continue
        r = list(r)
        for a, s in sc:
            if a == w[0]:
                B.expect((a, s) not in r, inp, "the winner is listed as a weak winner")
                continue
            lo, hi = min(s, w[1]), max(s, w[1])
            ratio = 1.0 if hi == lo else lo / hi
            if abs(ratio - (1 - err)) < 1e-9 or hi < 1e-9:
                continue
            B.expect(((a, s) in r) == (ratio >= 1 - err), (inp, a), "weak winners %r: ratio %r, tolerated %r" % (r, ratio, 1 - err))
        B.expect(all(x in sc for x in r) and len(r) == len(set(r)), inp, "weak winners %r" % r)
    if best:
        for k, g in best.items():
            B.case(k)
            B.expect(g([1.0, 2.0]) == (2.0 if k in ("hypervolume", "pdi") else 1.0), k, "best value of %s" % k)


CHECKS = [("resampling", c_sample), ("average", c_average), ("bootstrap", c_bootstrap), ("analysis", c_analysis), ("cost validation", c_cost), ("weak winners", c_weak)]
