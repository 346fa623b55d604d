"""C09: runs stop at their limit and report every step in order (fake clock, recording driver)"""
from gens import *


def mkdriver(B, costs, durations, clock):
    Driver = B.get("algorithms.base.driver:Driver")

    class D(Driver):
        def __init__(self):
            super().__init__()
            self.taken = 0

        def step(self):
            if self.taken >= len(costs):
                raise RuntimeError("more steps than any run may take")
            self.cost += costs[self.taken]
            clock[0] += durations[self.taken]
            self.taken += 1

        def finalized_population(self):
            return [[float(self.taken)]]
    return D()


class FakeTime:
    def __init__(self, clock, real):
        self.clock, self.real = clock, real

    def time(self):
        return self.clock[0]

    perf_counter = monotonic = process_time = time

    def __getattr__(self, n):
        return getattr(self.real, n)


def collect(job):
    out, done, err = [], [], []
    job.subscribe(lambda m: out.append(m), lambda e: err.append(e), lambda: done.append(1))
    return out, done, err


def c_budget(B):
    Run = B.get("algorithms.base.driver:BudgetRun")
    for _ in B.loop(1500):
        n = B.rng.randrange(1, 12)
        costs = [B.rng.choice([0, 1, 1, 3, 10] if B.rng.random() < 0.6 else [0.25, 0.5, 1.25, 0.75]) for _ in range(n)] + [50] * 8
        bs = sorted(B.rng.randrange(0, 60) for _ in range(B.rng.choice([1, 1, 2, 3])))
        d = mkdriver(B, costs, [0] * len(costs), [0])
        inp = (costs, bs)
        B.case(inp)
        prev = 0
        for b in bs:
            before = d.taken
            c = d.cost
            k = before
            while c < b:
                c += costs[k]
                k += 1
            out, done, err = collect(Run(b).create_job(d))
            if not B.expect(not err and done == [1], inp, "run did not complete normally: %r" % err):
                break
            B.expect(d.taken == k, inp, "budget %d: %d steps taken, cost first reaches it after %d" % (b, d.taken, k))
            B.expect(len(out) == k - before, inp, "budget %d: %d messages for %d steps" % (b, len(out), k - before))
            B.expect([m.step_no for m in out] == list(range(before, before + len(out))) or [m.step_no for m in out] == list(range(before + 1, before + 1 + len(out))), inp, "step numbers %r" % [m.step_no for m in out])
            B.expect([m.cost for m in out] == [sum(costs[:i + 1]) for i in range(before, k)], inp, "costs reported out of order: %r" % [m.cost for m in out])


def c_steps(B):
    Run = B.get("algorithms.base.driver:StepsRun")
    for _ in B.loop(800):
        costs = [B.rng.choice([0, 1, 5]) for _ in range(60)]
        d = mkdriver(B, costs, [0] * 60, [0])
        ns = [B.rng.choice([0, 1, 2, 3, 7]) for _ in range(B.rng.choice([1, 2, 4]))]
        inp = ns
        B.case(inp)
        for n in ns:
            before = d.taken
            out, done, err = collect(Run(n).create_job(d))
            t = 0
            while not done and not err and t < 200:
                import time
                time.sleep(0.005)
                t += 1
            B.expect(not err and done == [1], inp, "run did not complete normally: %r" % err)
            B.expect(d.taken - before == n and len(out) == n, inp, "%d requested, %d taken, %d reported" % (n, d.taken - before, len(out)))
            no = [m.step_no for m in out]
            B.expect(no == list(range(before, before + n)) or no == list(range(before + 1, before + n + 1)), inp, "step numbers %r" % no)
            B.expect([m.cost for m in out] == [sum(costs[:i + 1]) for i in range(before, before + n)], inp, "costs %r" % [m.cost for m in out])


def c_time(B):
    mod = B.get("algorithms.base.driver:")
    Run = B.get("algorithms.base.driver:TimeRun")
    import time as real
    for _ in B.loop(2500):
        unit = B.rng.choice([1.0, 0.125, 0.5])
        step = B.rng.choice([1, 2, 3, 5])
        timeout = B.rng.choice([1, 2, 3, 4, 6, 7, 10, 12])
        durs = [unit * B.rng.choice([1, 1, 2, 3, 5, 8, 17, 40]) for _ in range(200)]
        clock = [B.rng.choice([0.0, 1000.0])]
        costs = [B.rng.choice([0, 1, 2]) for _ in range(200)]
        d = mkdriver(B, costs, durs, clock)
        inp = (step, timeout, durs[:30], costs[:30])
        B.case(inp)
        saved = mod.time
        mod.time = FakeTime(clock, real)
        try:
            out, done, err = collect(Run(step, timeout).create_job(d))
        finally:
            mod.time = saved
        T, ends = 0.0, []
        for x in durs:
            if T >= timeout:
                break
            T += x
            ends.append(T)
        if not B.expect(not err and done == [1], inp, "run did not complete normally: %r" % err):
            continue
        B.expect(d.taken == len(ends), inp, "%d steps taken, the step time reaches the limit after %d" % (d.taken, len(ends)))
        slots = [m.elapsed_time for m in out]
        B.expect(slots == [step * (i + 1) for i in range(len(slots))], inp, "slots %r" % slots)
        B.expect(all(s <= timeout for s in slots), inp, "slot past the limit: %r" % slots)
        want = int(min(ends[-1], timeout) // step) if len(ends) > 1 else 0
        B.expect(len(slots) == want, inp, "%d slots reported, %d passed" % (len(slots), want))
        off = None
        for m in out:
            k = next(i for i, e in enumerate(ends) if e >= m.elapsed_time)   # index of the step that crossed the slot
            src = max(k - 1, 0)
            c = sum(costs[:src + 1])
            B.expect(m.cost == c and m.step_no in (src, src + 1), inp, "slot %r carries step %r cost %r, expected the result of step %d cost %r" % (m.elapsed_time, m.step_no, m.cost, src + 1, c))
            off = m.step_no - src if off is None else off
            B.expect(m.step_no - src == off, inp, "step numbers shift")


def c_counting(B):
    """every kind of driver counts its steps one by one, subclasses included"""
    Driver = B.get("algorithms.base.driver:Driver")

    class A(Driver):
        def step(self):
            self.cost += 2

    class C(A):
        def step(self):
            self.cost += 3

    class X(Driver):
        def next_step(self):
            self.cost += 1
            return self.message_adapter.emit_result()
    for k in (A, C, X):
        d = k()
        for i in range(1, 6):
            B.case((k.__name__, i))
            m = d.next_step()
            B.expect(d.step_no == i, k.__name__, "%d steps counted after %d" % (d.step_no, i))
            B.expect(m.cost == d.cost, k.__name__, "message reports cost %r, driver %r" % (m.cost, d.cost))


def c_worker(B):
    """the budget worker stores one result per budget, taken when the run for that budget ends"""
    W = B.get("simulation.worker:BudgetWorker")
    mod = B.get("simulation.worker:")
    import logging, types
    if not hasattr(mod, "Serializer") or not hasattr(W, "run_driver"):
        return
    for _ in B.loop(200):
        costs = [B.rng.choice([1, 2, 7]) for _ in range(200)]
        bs = sorted(B.rng.sample(range(1, 60), B.rng.choice([1, 2, 4])))
        d = mkdriver(B, costs, [0] * 200, [0])
        c0 = B.rng.choice([0, 0, 1, 12, 35, 80])
        d.cost += c0            # what building the driver cost
        sim = types.SimpleNamespace(params={"budgets": bs}, algorithm_name="A", problem_name="P", id="x")
        stored = []

        class S:
            def __init__(self, s):
                pass

            def store(self, r, label):
                stored.append((label, r.population, r.fitnesses, r.additional_data))
        saved = mod.Serializer
        mod.Serializer = S
        inp = (costs[:40], bs, c0)
        B.case(inp)
        try:
            key = B.opt("simulation.factory:BUDGETS_PARAM")
            if key:
                sim.params[key] = bs
            w = W(sim, 0)
            prob = types.SimpleNamespace(fitnesses=[lambda x: x[0], lambda x: -x[0]])
            res = w.run_driver(d, prob, logging.getLogger("x"))
        finally:
            mod.Serializer = saved
        want = []
        c, k = c0, 0
        for b in bs:
            while c < b:
                c += costs[k]
                k += 1
            want.append((str(b), [[float(k)]], [[float(k), -float(k)]], {"cost": c}))
        B.expect(stored == want, inp, "stored %r, expected %r" % (stored, want))
        B.expect([r[0] for r in res] == [x[3]["cost"] for x in want], inp, "returned costs %r" % [r[0] for r in res])
        B.expect(d.max_budget == bs[-1], inp, "driver's overall budget is %r" % d.max_budget)


def c_time_worker(B):
    """the time worker stores one result per reported time slot, under that slot, in order"""
    W = B.get("simulation.worker:TimeWorker")
    mod, drv = B.get("simulation.worker:"), B.get("algorithms.base.driver:")
    TP, SP = B.opt("simulation.factory:TIMEOUT_PARAM"), B.opt("simulation.factory:SAMPLING_INTERVAL_PARAM")
    import logging, types, time as real
    if not hasattr(mod, "Serializer") or not hasattr(W, "run_driver") or not hasattr(drv, "time") or not TP or not SP:
        return
    for _ in B.loop(200):
        step, timeout = B.rng.choice([1, 2, 3, 5]), B.rng.choice([1, 2, 3, 6, 10, 12])
        durs = [B.rng.choice([0.5, 1, 1, 2, 5, 17]) for _ in range(200)]
        clock = [0.0]
        d = mkdriver(B, [1] * 200, durs, clock)
        sim = types.SimpleNamespace(params={TP: timeout, SP: step}, algorithm_name="A", problem_name="P", id="x")
        T, ends = 0.0, []
        for x in durs:
            if T >= timeout:
                break
            T += x
            ends.append(T)
        n = int(min(ends[-1], timeout) // step) if len(ends) > 1 else 0
        if n == 0:      # nothing to report: the worker may return nothing or say so
            continue
        stored = []

        class S:
            def __init__(self, s):
                pass

            def store(self, r, label):
                stored.append((label, r.population, r.fitnesses))
        saved, savedt = mod.Serializer, drv.time
        mod.Serializer, drv.time = S, FakeTime(clock, real)
        inp = (step, timeout, durs[:30])
        B.case(inp)
        try:
            prob = types.SimpleNamespace(fitnesses=[lambda x: x[0], lambda x: -x[0]])
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                ok, res = B.run(inp, W(sim, 0).run_driver, d, prob, logging.getLogger("x"))
        finally:
            mod.Serializer, drv.time = saved, savedt
        if not ok:
            continue
        B.expect(d.taken == len(ends), inp, "%d steps taken, expected %d" % (d.taken, len(ends)))
        B.expect([x[0] for x in stored] == [str(step * (i + 1)) for i in range(n)], inp, "stored under %r, expected the slots %r" % ([x[0] for x in stored], [step * (i + 1) for i in range(n)]))
        B.expect(all(f == [[p[0], -p[0]] for p in pop] for _, pop, f in stored), inp, "fitness values stored with another population")
        B.expect(len(res) == len(stored), inp, "%d results returned, %d stored" % (len(res), len(stored)))


def c_real(B):
    """every plain algorithm under a budget run"""
    import algs
    Run = B.get("algorithms.base.driver:BudgetRun")
    for name in algs.SIMPLE:
        for b in (1, 25, 60):
            if not B.more():
                return
            ds = [(0, 1), (-1, 2)]
            pop = [inbox(B.rng, ds) for _ in range(9)]
            inp = (name, b, pop)
            B.case(inp)
            alg = algs.simple(B, name, pop, ds, objectives(2, 2))
            alg.max_budget = b
            out, done, err = collect(Run(b).create_job(alg))
            B.expect(not err and done == [1], inp, "did not complete: %r" % err)
            B.expect(alg.cost >= b, inp, "stopped at cost %r below the budget" % alg.cost)
            costs = [m.cost for m in out]
            B.expect(all(x <= y for x, y in zip(costs, costs[1:])) and all(c < b for c in costs[:-1]), inp, "costs %r" % costs)
            B.expect(alg.step_no == len(out) and all(y == x + 1 for x, y in zip([m.step_no for m in out], [m.step_no for m in out][1:])), inp, "steps")


CHECKS = [("budget run", c_budget), ("steps run", c_steps), ("time run", c_time), ("step counting", c_counting), ("budget worker", c_worker), ("time worker", c_time_worker), ("algorithms", c_real)]
