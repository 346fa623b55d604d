from .lib import *

H = "algorithms.HGS.classic.ClassicHGS:"
I, Rl, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
POPS = ClassVal("populations", None, [], {}, None)


class Tree:
    """any number of nodes with arbitrary life-cycle flags, hypervolume histories and centres.
    A hypervolume of minus infinity (a node that has not run twice) is represented by some non-positive number: the
    code only compares it with zero."""

    def __init__(self, P):
        self.P = P
        self.cls = P.get(H + "ClassicHGS").lookup("Node")[0]
        n = self.cls.name
        F = lambda name, *s: P.fn1(name, *s)
        self.ALIVE, self.RIPE, self.LEVEL = F("ALIVE", I, Bo), F("RIPE", I, Bo), F("LEVEL", I, I)
        self.OLD, self.HASOLD, self.HV = F("OLDHV", I, Rl), F("HASOLD", I, Bo), F("HV", I, Rl)
        self.CENTER, self.MEAN = F("CENTER", I, Vec), F("MEANPOP", I, Vec)
        put = lambda a, f: P.st.heap.__setitem__(("F", n, a), FMap(f))
        put("alive", lambda t: self.ALIVE(t))
        put("ripe", lambda t: self.RIPE(t))
        put("level", lambda t: self.LEVEL(t))
        put("old_hypervolume", lambda t: Opt.mk(z3.Not(self.HASOLD(t)), self.OLD(t)))
        put("hypervolume", lambda t: self.HV(t))
        put("center", lambda t: Seq.ofvec(self.CENTER(t)))
        put("population", lambda t: SymObj(POPS, t))
        t = z3.Int("t!n")
        P.fact(z3.ForAll([t], z3.And(self.LEVEL(t) >= 0, self.LEVEL(t) <= 2), patterns=[self.LEVEL(t)]))
        P.eng.contracts["lib:numpy.mean"] = self.mean
        P.eng.contracts["lib:print"] = lambda e, st, a, kw, node: [(st, None)]

    def mean(self, e, st, a, kw, node):
        if isinstance(a[0], SymObj) and a[0].cls is POPS and kw.get("axis", a[1] if len(a) > 1 else None) == 0:
            return [(st, Seq.ofvec(self.MEAN(a[0].term)))]
        raise Unsupported("mean of something else")

    def f(self, s, t, a):
        return fld(self.P, SymObj(self.cls, toz(t)), a, s)

    def same(self, s, t, *attrs):
        """unchanged fields of node t"""
        P = self.P
        out = []
        for a in attrs or ("alive", "ripe", "center", "level", "hypervolume"):
            now, was = self.f(s, t, a), P.eng.getattr(P.st0, SymObj(self.cls, toz(t)), a)[0][1]
            out.append(SEQV(now) == SEQV(was) if isinstance(now, Seq) else toz(now) == toz(was))
        return z3.And(*out)


@proof("C12", "nodes that stop progressing are retired and ripe, the others stay as they are", H + "ClassicHGS.trim_not_progressing")
def notprog(P):
    w = Tree(P)
    N = P.int("N", 0)
    nodes = P.lst(Seq(N, lambda i: SymObj(w.cls, toz(i))))
    ratio = [P.real("ratio%d" % i) for i in range(3)]
    hgs = P.obj(H + "ClassicHGS", dict(min_progress_ratio=P.lst(Seq.lit(ratio))))
    P.st0 = P.st.copy()
    eps = z3.RealVal(2) ** -52
    lim = lambda t: z3.If(w.LEVEL(t) == 0, ratio[0], z3.If(w.LEVEL(t) == 1, ratio[1] / 2, ratio[2] / 4))
    stuck = lambda t: z3.And(w.ALIVE(t), w.HASOLD(t), w.OLD(t) > 0, w.HV(t) / (w.OLD(t) + eps) - 1 < lim(t))

    def want(s, t, on):
        return z3.If(z3.And(on, stuck(t)), z3.And(toz(w.f(s, t, "alive")) == False, toz(w.f(s, t, "ripe")) == True, SEQV(w.f(s, t, "center")) == w.MEAN(t)), w.same(s, t, "alive", "ripe", "center"))

    P.loops = []
    P.eng.loop_inv = lambda eng, st: P.loops.append(eng.loop_seq) or [lambda s, k, v=eng.loop_seq: forall(N, lambda t: want(s, t, visited_of(v, k, t)))]
    P.eng.inv_for = True
    for s, v in P.call(P.method(hgs, "trim_not_progressing"), [hgs, nodes]):
        for v in P.loops:
            P.have(s, "every live node is looked at", forall(N, lambda t: z3.Implies(stuck(t), visited_of(v, v.n, t))))
        P.ensure(s, "exactly the live nodes without progress are retired and ripe, centred on their population", forall(N, lambda t: want(s, t, z3.BoolVal(True))))
        P.ensure(s, "no other state changes", forall(N, lambda t: w.same(s, t, "level", "hypervolume")))


def visited_of(sq, k, t):
    if sq is not None and sq.kind == "filter":
        return sq.parts[3][1](toz(t)) < toz(k)
    return toz(t) < toz(k)


RED = z3.Function("REDUNDANT", Vec, Vec, Rl, Bo)


def redundant_contract(eng, st, args, kw, node):
    """contract of redundant (its body is under contract below): a relation of the two centres and the distance"""
    a, b = [eng.seq_of(x, st) for x in args[:2]]
    if not (a.is_lit and b.is_lit and a.n == 1 and b.n == 1):
        raise Unsupported("redundancy of larger sets")
    return [(st, RED(SEQV(eng.seq_of(a.get(0), st)), SEQV(eng.seq_of(b.get(0), st)), R(args[2])))]


@proof("C12", "redundant nodes are retired: live ones near a ripe dead node or an earlier live one", H + "ClassicHGS.trim_redundant")
def redundancy(P):
    w = Tree(P)
    P.eng.contracts[H + "redundant"] = redundant_contract
    N = P.int("N", 0)
    nodes = P.lst(Seq(N, lambda i: SymObj(w.cls, toz(i))))
    dist = [P.real("dist%d" % i) for i in range(3)]
    hgs = P.obj(H + "ClassicHGS", dict(min_dists=P.lst(Seq.lit(dist))))
    P.st0 = P.st.copy()
    D = lambda t: z3.If(w.LEVEL(t) == 0, dist[0], z3.If(w.LEVEL(t) == 1, dist[1], dist[2]))
    near = lambda o, t: z3.If(w.ALIVE(o), z3.And(o < t, RED(w.MEAN(o), w.MEAN(t), D(t))), z3.And(w.RIPE(o), RED(w.CENTER(o), w.MEAN(t), D(t))))
    kill = lambda t: z3.And(w.ALIVE(t), exists(N, lambda o: near(toz(o), t)))

    def want(s, t, on):
        return z3.If(z3.And(on, w.ALIVE(t)), z3.And(toz(w.f(s, t, "alive")) == z3.Not(kill(t)), SEQV(w.f(s, t, "center")) == w.MEAN(t), w.same(s, t, "ripe")), w.same(s, t, "alive", "ripe", "center"))
    P.loops = []

    def cands(eng, st):
        v = eng.loop_seq
        P.loops.append(v)
        out = []
        if v.kind == "filter":
            out.append(lambda s, k: forall(N, lambda t: want(s, t, visited_of(v, k, t))))
        for n, x in st.frames[st.cur].items():
            if isinstance(x, ListRef) and v.kind == "filter" and P.seq(x, st).is_lit and P.seq(x, st).n == 0:
                # a list that collects the visited nodes
                def coll(s, k, x=x):
                    q = P.seq(x, s)
                    return z3.And(toz(q.n) == k, forall(k, lambda j: q.get(j).term == v.get(j).term))
                out.append(coll)
            if isinstance(x, SymObj):
                # the node compared with the others
                def seen(s, k, x=x):
                    def hit(j):
                        o = v.get(j)
                        return near(o.term, x.term)
                    return toz(w.f(s, x.term, "alive")) == z3.Not(exists(k, hit))
                out.append(seen)
                out.append(lambda s, k, x=x: forall(N, lambda t: z3.And(z3.Or(toz(t) == x.term, w_same(eng, s, st, t, "alive")), w_same(eng, s, st, t, "ripe"), w_same(eng, s, st, t, "center"))))
        return out

    def w_same(eng, s, st, t, a):
        x, y = w.f(s, t, a), w.f(st, t, a)
        return SEQV(x) == SEQV(y) if isinstance(x, Seq) else toz(x) == toz(y)
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, v in P.call(P.method(hgs, "trim_redundant"), [hgs, nodes]):
        for v in P.loops[:1]:
            P.have(s, "every live node is looked at", forall(N, lambda t: z3.Implies(w.ALIVE(t), visited_of(v, v.n, t))))
        P.ensure(s, "exactly the redundant live nodes are retired", forall(N, lambda t: want(s, t, z3.BoolVal(True))))


@proof("C12", "only when no node is alive are ripe nodes revived, with the progress thresholds halved", H + "ClassicHGS.revive_root")
def revive(P):
    w = Tree(P)
    N = P.int("N", 0)
    nodes = P.lst(Seq(N, lambda i: SymObj(w.cls, toz(i))))
    ratio = [P.real("ratio%d" % i) for i in range(3)]
    hgs = P.obj(H + "ClassicHGS", dict(nodes=nodes, min_progress_ratio=P.lst(Seq.lit(ratio))))
    P.st0 = P.st.copy()
    any_ = exists(N, lambda t: w.ALIVE(toz(t)))

    def want(s, t, on):
        return z3.If(z3.And(on, w.RIPE(t)), z3.And(toz(w.f(s, t, "alive")) == True, toz(w.f(s, t, "ripe")) == False), w.same(s, t, "alive", "ripe"))
    P.loops = []
    P.eng.loop_inv = lambda eng, st: P.loops.append(eng.loop_seq) or [lambda s, k, v=eng.loop_seq: forall(N, lambda t: want(s, t, visited_of(v, k, t)))]
    P.eng.inv_for = True
    for s, v in P.call(P.method(hgs, "revive_root"), [hgs]):
        for v in P.loops[:1]:
            P.have(s, "every ripe node is looked at", z3.Implies(z3.Not(any_), forall(N, lambda t: z3.Implies(w.RIPE(t), visited_of(v, v.n, t)))))
        P.ensure(s, "with a live node nothing changes", z3.Implies(any_, forall(N, lambda t: w.same(s, t, "alive", "ripe"))))
        P.ensure(s, "otherwise exactly the ripe nodes are revived", z3.Implies(z3.Not(any_), forall(N, lambda t: want(s, t, z3.BoolVal(True)))))
        now = P.seq(fld(P, hgs, "min_progress_ratio", s), s)
        P.ensure(s, "three thresholds", toz(now.n) == 3)
        for i in range(3):
            P.ensure(s, "threshold of level %d" % i, R(now.get(i)) == z3.If(any_, ratio[i], ratio[i] / 2))
        P.ensure(s, "no other state changes", forall(N, lambda t: w.same(s, t, "level", "hypervolume", "center")))


@proof("C12", "cost of a message is the cost since the previous one", H + "ClassicHGS.Node.fill_node_info, update_current_cost")
def costs(P):
    MSG = ClassVal("Message", None, [], {}, None)
    c0, c1, c2 = P.real("cost_before"), P.real("cost1"), P.real("cost2")
    lv = P.int("level", 0, 2)
    node = P.obj(P.get(H + "ClassicHGS").lookup("Node")[0], dict(current_cost=c0, level=lv))
    m1, m2 = P.obj(MSG, dict(cost=c1)), P.obj(MSG, dict(cost=c2))
    for s, v in P.call(P.method(node, "fill_node_info"), [node, m1]):
        P.ensure(s, "cost since the last message", R(fld(P, v, "epoch_cost", s)) == c1 - c0)
        P.ensure(s, "weighted by the level of the node", toz(num(fld(P, v, "level", s))) == lv)
        P.ensure(s, "driver cost unchanged", R(fld(P, v, "cost", s)) == c1)
        for s2, _ in P.call(P.method(node, "update_current_cost"), [node, v], st=s):
            P.ensure(s2, "remembers the cost", R(fld(P, node, "current_cost", s2)) == c1)
            for s3, v3 in P.call(P.method(node, "fill_node_info"), [node, m2], st=s2):
                P.ensure(s3, "the next message counts from there", R(fld(P, v3, "epoch_cost", s3)) == c2 - c1)


@proof("C12", "the message costs of a metaepoch add up to what the driver spent (telescoping)", "lemma")
def telescope(P):
    P.lemma = True
    C = P.fn1("COST", I, Rl)
    n = P.int("n", 0)
    f = lambda i: C(toz(i)) - C(toz(i) - 1)
    S = lambda m: SUM(P, m, f)
    P.ensure(P.st, "base", S(0) == C(z3.IntVal(-1)) - C(z3.IntVal(-1)))
    s = P.st.copy()
    s.assume(S(n) == C(n - 1) - C(z3.IntVal(-1)))
    unfold(P, s, n, f)
    P.ensure(s, "step", S(n + 1) == C(n) - C(z3.IntVal(-1)))


JOB = ClassVal("job", None, [], {}, None)


def rx_ops(P):
    """contracts of the rx operators used: an operator is its name and its functions"""
    for n in ("map", "do_action", "sum", "subscribe_on"):
        def h(e, st, a, kw, node, n=n):
            return [(st, SpecObj({"op": n, "args": tuple(a), "kw": dict(kw)}, "operator"))]
        P.eng.contracts["lib:rx.operators." + n] = h
    P.eng.contracts["lib:rx.scheduler.NewThreadScheduler"] = lambda e, st, a, kw, node: [(st, Opaque("scheduler"))]


@proof("C12", "a metaepoch adds the level-weighted cost of every message of every node", H + "ClassicHGS.run_metaepoch")
def epoch(P):
    w = Tree(P)
    rx_ops(P)
    e = P.eng
    cnt = [P.int("N%d" % l, 0) for l in range(3)]
    AT = [P.fn1("NODE%d" % l, I, I) for l in range(3)]
    node = lambda l, i: AT[l](toz(i))
    for l in range(3):
        i_ = z3.Int("i!l")
        P.fact(z3.ForAll([i_], w.LEVEL(AT[l](i_)) == l, patterns=[AT[l](i_)]))
    levels = P.dct([(l, P.lst(Seq(cnt[l], lambda i, l=l: SymObj(w.cls, node(l, i))))) for l in range(3)])
    mod = [P.real("modifier%d" % l) for l in range(3)]
    cost0 = P.real("cost")
    hgs = P.obj(H + "ClassicHGS", dict(level_nodes=levels, cost_modifiers=P.lst(Seq.lit(mod)), cost=cost0))
    MSGS, EC = P.fn1("MESSAGES", I, I), P.fn1("EPOCHCOST", I, I, Rl)
    t = z3.Int("t!m")
    P.fact(z3.ForAll([t], MSGS(t) >= 0, patterns=[MSGS(t)]))
    MSG = ClassVal("message", None, [], {}, None)
    # a message of node t is numbered by a pair; the message carries the level of its node (contract of fill_node_info)
    NODE, IDX, PAIR = P.fn1("MNODE", I, I), P.fn1("MIDX", I, I), P.fn1("MPAIR", I, I, I)
    a, b = z3.Ints("a!m b!m")
    P.fact(z3.ForAll([a, b], z3.And(NODE(PAIR(a, b)) == a, IDX(PAIR(a, b)) == b), patterns=[PAIR(a, b)]))
    P.st.heap[("F", "message", "level")] = FMap(lambda m: w.LEVEL(NODE(m)))
    P.st.heap[("F", "message", "epoch_cost")] = FMap(lambda m: EC(NODE(m), IDX(m)))
    e.contracts[H + "ClassicHGS.Node.run_metaepoch"] = lambda e, st, a, kw, nd: [(st, SymObj(JOB, a[0].term))]
    e.contracts[H + "Node.run_metaepoch"] = e.contracts[H + "ClassicHGS.Node.run_metaepoch"]

    def pipe(t):
        def h(e, st, args, kw, nd):
            return [(st, SpecObj({"run": UFun(lambda e, s, a: drain(e, s, t, args), "run")}, "stream"))]
        return UFun(lambda e, s, a: h(e, s, a, {}, None), "pipe")

    def drain(e, st, t, ops):
        """contract of rx: the messages pass the operators in order; sum gives one value when the source completes"""
        seq = Seq(MSGS(t), lambda i: SymObj(MSG, PAIR(t, toz(i))))
        for o in ops:
            k = o.attrs["op"]
            if k == "subscribe_on":
                continue
            fs = list(o.attrs["args"]) + list(o.attrs["kw"].values())
            if k == "map" and len(fs) == 1:
                seq = e_map(e, st, seq, fs[0])
            elif k == "sum" and not fs:
                seq = Seq.lit([SUM(P, seq.n, lambda i, q=seq: q.get(i))])
            elif k == "do_action" and seq.is_lit and len(fs) == 1 and ("on_next" in o.attrs["kw"] or o.attrs["args"]):
                for x in seq.items():
                    outs = e.call(fs[0], [x], {}, st, None)
                    if len(outs) != 1:
                        raise Unsupported("branching action")
                    st = outs[0][0]
            else:
                raise Unsupported("operator %s here" % k)
        return [(st, None)]

    def e_map(e, st, q, f):
        from pydv.loops import sym_map
        r = sym_map(e, st, q, lambda s, x: e.call(f, [x], {}, s, None))
        return r[0][1] if isinstance(r, list) else r
    P.st.heap[("F", "job", "pipe")] = FMap(pipe)
    weight = lambda t, l: SUM(P, MSGS(t), lambda i: mod[l] * EC(t, toz(i)))
    for s, v in P.call(P.method(hgs, "run_metaepoch"), [hgs]):
        total = 0
        for l in range(3):
            total = total + SUM(P, cnt[l], lambda i, l=l: weight(node(l, i), l))
        P.ensure(s, "the reported cost grows by the weighted cost of all messages", R(fld(P, hgs, "cost", s)) == cost0 + total)


@proof("C12", "only live nodes run, for the configured number of steps; each message is costed, then remembered", H + "ClassicHGS.Node.run_metaepoch")
def runs(P):
    rx_ops(P)
    e = P.eng
    alive, length = P.bool("alive"), P.int("length", 1)
    c0, c1 = P.real("cost_before"), P.real("cost1")
    lv = P.int("level", 0, 2)
    MSG = ClassVal("Message", None, [], {}, None)
    g = Ghost(P, jobs=z3.IntVal(0), after=z3.IntVal(0))
    drv = Opaque("driver")
    node = P.obj(P.get(H + "ClassicHGS").lookup("Node")[0], dict(alive=alive, level=lv, metaepoch_len=length, current_cost=c0, driver=drv))

    def steps_run(e, st, a, kw, nd):
        n = a[0] if a else kw.get("steps_number", next(iter(kw.values()), None))
        P.ensure(st, "the configured number of steps", toz(num(n)) == length)

        def job(e, s, args):
            P.ensure(s, "the node's own driver runs", args[0] is drv)
            g.set(s, "jobs", g.get(s, "jobs") + 1)
            return [(s, SpecObj({"pipe": UFun(lambda e, s2, ops: [(s2, SpecObj({"ops": tuple(ops)}, "stream"))], "pipe")}, "job"))]
        return [(st, SpecObj({"create_job": UFun(job, "create_job")}, "run"))]
    e.contracts["algorithms.base.driver:StepsRun"] = steps_run
    e.contracts["lib:rx.empty"] = lambda e, st, a, kw, nd: [(st, SpecObj({"ops": ()}, "empty"))]

    def after(e, st, a, kw, nd):
        g.set(st, "after", g.get(st, "after") + 1)
        return [(st, None)]
    e.contracts[H + "Node._after_metaepoch"] = e.contracts[H + "ClassicHGS.Node._after_metaepoch"] = after
    for s, v in P.call(P.method(node, "run_metaepoch"), [node]):
        P.ensure(s, "a node runs exactly when it is alive", (g.get(s, "jobs") == 1) == alive)
        P.ensure(s, "at most once", g.get(s, "jobs") <= 1)
        if v.attrs["ops"]:
            P.ensure(s, "only a live node reports", alive)
            # one message of the driver passes through (contract of rx), then the run completes
            states = [(s, P.obj(MSG, dict(cost=c1), st=s))]
            for phase in ("on_next", "on_completed"):
                for o in v.attrs["ops"]:
                    new = []
                    for s2, m in states:
                        k, a, kw = o.attrs["op"], o.attrs["args"], o.attrs["kw"]
                        if k == "map" and phase == "on_next":
                            new += [(s3, m3) for s3, m3 in P.call(a[0], [m], st=s2)]
                        elif k == "do_action":
                            f = kw.get(phase, a[0] if a and phase == "on_next" else (a[2] if len(a) > 2 and phase == "on_completed" else None))
                            new += [(s3, m) for s3, _ in P.call(f, [m] if phase == "on_next" else [], st=s2)] if f is not None else [(s2, m)]
                        elif k == "map":
                            new.append((s2, m))
                        else:
                            raise Unsupported("operator " + k)
                    states = new
            for s2, m in states:
                P.ensure(s2, "the message carries the cost since the previous one", R(fld(P, m, "epoch_cost", s2)) == c1 - c0)
                P.ensure(s2, "and the level of the node", toz(num(fld(P, m, "level", s2))) == lv)
                P.ensure(s2, "which is then remembered", R(fld(P, node, "current_cost", s2)) == c1)
                P.ensure(s2, "on completion the node takes over the result", g.get(s2, "after") == 1)
        else:
            P.ensure(s, "a node without messages is dead", z3.Not(alive))


@proof("C12", "sprouting: level, number, size, origin and registration of new sprouts", H + "ClassicHGS.Node.release_new_sprouts")
def sprouting(P):
    w = Tree(P)
    e = P.eng
    e.contracts[H + "redundant"] = redundant_contract
    lv, maxl = P.int("level", 0, 2), P.int("max_level", 0, 2)
    maxs, sprt = P.int("max_sprouts", 0), P.int("sproutiveness", 0)
    ripe, aliv = P.bool("ripe"), P.bool("alive")
    S0, D, NN = P.int("S", 0), P.int("D", 0), P.int("NN", 0)
    cnt = [P.int("L%d" % l, 0) for l in range(3)]
    SP = P.fn1("SPROUT", I, I)
    LV = [P.fn1("ATLEVEL%d" % l, I, I) for l in range(3)]
    NO = P.fn1("NODE", I, I)
    DEL = P.vecs("DELEGATE", D)
    PLEN = P.fn1("POPLEN", I, I)
    P.st.heap[("F", w.cls.name, "population")] = FMap(lambda t: Seq(PLEN(t), lambda i: Opaque("member")))
    t_ = z3.Int("t!p")
    P.fact(z3.ForAll([t_], PLEN(t_) >= 0, patterns=[PLEN(t_)]))
    dist = [P.real("dist%d" % i) for i in range(3)]
    size = [P.int("size%d" % i, 1) for i in range(3)]
    rate, eta = [P.real("rate%d" % i) for i in range(3)], [P.real("eta%d" % i) for i in range(3)]
    level_lists = [P.lst(Seq(cnt[l], lambda i, l=l: SymObj(w.cls, LV[l](toz(i))))) for l in range(3)]
    all_nodes = P.lst(Seq(NN, lambda i: SymObj(w.cls, NO(toz(i)))))
    dims = Opaque("dims")
    lit = lambda xs: P.lst(Seq.lit(xs))
    owner = P.obj(H + "ClassicHGS", dict(max_level=maxl, max_sprouts_no=maxs, sproutiveness=sprt, min_dists=lit(dist), population_sizes=lit(size), dims=dims,
                                         mutation_rates=lit(rate), mutation_etas=lit(eta), nodes=all_nodes, level_nodes=P.dct(list(zip(range(3), level_lists)))))
    sprouts = P.lst(Seq(S0, lambda i: SymObj(w.cls, SP(toz(i)))))
    node = P.obj(w.cls, dict(ripe=ripe, alive=aliv, level=lv, owner=owner, sprouts=sprouts, delegates=P.lst(DEL)))
    g = Ghost(P, made=z3.IntVal(0), recursed=z3.IntVal(0))
    FRESH = z3.Int("fresh")
    # existing nodes have smaller numbers than new ones
    i = z3.Int("i!f")
    for f, n in [(SP, S0), (NO, NN)] + list(zip(LV, cnt)):
        P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(i) < FRESH), patterns=[f(i)]))
    POP = ClassVal("candidate", None, [], {}, None)
    WHO = P.fn1("CAND_DELEGATE", I, Vec)
    pick = lambda xs: z3.If(lv + 1 == 1, xs[1], xs[2])

    def cand(e, st, a, kw, nd):
        P.ensure(st, "configured size of the level", toz(num(a[1])) == pick(size))
        P.ensure(st, "mutated with the settings of the level", z3.And(R(a[3]) == pick(rate), R(a[4]) == pick(eta)))
        P.ensure(st, "inside the bounds of the problem", a[2] is dims)
        c = e.fresh_int("cand")
        st.assume(WHO(c) == SEQV(e.seq_of(a[0], st)))
        return [(st, SymObj(POP, c))]
    e.contracts[H + "population_from_delegate"] = cand

    def make(e, st, a, kw, nd):
        m = g.get(st, "made")
        P.ensure(st, "one level deeper", toz(num(a[1])) == lv + 1)
        P.ensure(st, "not deeper than the maximum level", toz(num(a[1])) <= maxl)
        P.ensure(st, "below the number allowed per metaepoch", m < sprt)
        P.ensure(st, "owner", a[0] is owner or getattr(a[0], "addr", None) == owner.addr)
        q = P.seq(sprouts, st)
        P.ensure(st, "below the number of live sprouts allowed", SUM(P, q.n, lambda j: z3.If(toz(w.f(st, q.get(j).term, "alive")), 1, 0)) < maxs)
        for l in (1, 2):
            lq = P.seq(level_lists[l], st)
            c = WHO(a[2].term)
            P.ensure(st, "the delegate is not redundant with a populated node of that level", z3.Implies(lv + 1 == l, forall(lq.n, lambda j: z3.Or(toz(P.seq(w.f(st, lq.get(j).term, "population"), st).n) == 0,
                     z3.Not(RED(c, SEQV(w.f(st, lq.get(j).term, "center")), dist[l]))))))
        P.ensure(st, "starts from one of the delegates", exists(D, lambda j: WHO(a[2].term) == DEL.ety(toz(j))))
        g.set(st, "made", m + 1)
        o = SymObj(w.cls, FRESH + m)
        # contract of Node.__init__: a live node with an empty population
        e.setattr(st, o, "alive", True)
        e.setattr(st, o, "ripe", False)
        e.setattr(st, o, "population", Seq(z3.IntVal(0), lambda i: Opaque("member")))
        return [(st, o)]
    e.contracts[w.cls.module.name + ":" + w.cls.name] = make

    def recurse(e, st, a, kw, nd):
        P.ensure(st, "recursion into a sprout", isinstance(a[0], SymObj))
        g.set(st, "recursed", g.get(st, "recursed") + 1)
        return [(st, None)]
    e.contracts[H + "ClassicHGS.Node.release_new_sprouts"] = e.contracts[H + "Node.release_new_sprouts"] = recurse
    names = dict(sprouts=(sprouts, SP, S0), nodes=(all_nodes, NO, NN))
    for l in (0, 1, 2):
        names["level%d" % l] = (level_lists[l], LV[l], cnt[l])

    def grown(s, n, m):
        """the list has its old elements followed by the new nodes"""
        r, f, n0 = names[n]
        q = P.seq(r, s)
        if n.startswith("level"):
            m = z3.If(lv + 1 == int(n[-1]), m, 0)
        return z3.And(toz(q.n) == n0 + m, forall(n0, lambda j: q.get(j).term == f(j)), forall(m, lambda j: q.get(n0 + j).term == FRESH + j))

    def cands(eng, st):
        over_nodes = eng.loop_seq is not None and isinstance(eng.loop_seq.get(z3.Int("i?")), SymObj)
        out = [lambda s, k: g.get(s, "made") >= 0, lambda s, k: g.get(s, "made") <= sprt,
               lambda s, k: g.get(s, "recursed") == g.get(st, "recursed") + (k if over_nodes else 0)]
        if over_nodes:
            out.append(lambda s, k: g.get(s, "made") == g.get(st, "made"))
        for n in names:
            out.append(lambda s, k, n=n: grown(s, n, g.get(s, "made")))
        for n, v in st.frames[st.cur].items():
            if is_num(v) and not is_bool(v) and not n.startswith("__"):
                out.append(lambda s, k, n=n: toz(num(s.frames[st.cur][n])) == g.get(s, "made"))
        return out
    e.loop_inv, e.inv_for = cands, True
    P.inv_timeout(6000)
    live0 = SUM(P, S0, lambda j: z3.If(w.ALIVE(SP(toz(j))), 1, 0))
    for s, v in P.call(P.method(node, "release_new_sprouts"), [node]):
        m = g.get(s, "made")
        P.ensure(s, "only a ripe node sprouts", z3.Implies(z3.Not(ripe), z3.And(m == 0, g.get(s, "recursed") == 0)))
        P.ensure(s, "each sprout of a ripe node is visited", z3.Implies(ripe, g.get(s, "recursed") == S0))
        P.ensure(s, "at most the configured number is gained", z3.And(m >= 0, m <= sprt))
        P.ensure(s, "none at the maximum level", z3.Implies(lv >= maxl, m == 0))
        for n in names:
            P.ensure(s, "new sprouts are registered in " + n, grown(s, n, m))
        P.ensure(s, "the node itself keeps its state", z3.And(toz(fld(P, node, "ripe", s)) == ripe, toz(fld(P, node, "alive", s)) == aliv))


def two_modules(fn):
    for mod in (H, "algorithms.HGS.tools:"):
        fn(mod, mod.split(".")[-1][:-1])


def near_proof(mod, nm):
    @proof("C12", "redundancy of two centres is a distance below the level's (%s)" % nm, mod + "redundant")
    def pr(P):
        d = P.int("D", 1)
        a, b, m = P.vec("a", d), P.vec("b", d), P.real("min_dist")
        for s, v in P.call(P.get(mod + "redundant"), [P.lst(Seq.lit([a])), P.lst(Seq.lit([b])), m]):
            sq = SUM(P, d, lambda i: (R(a.get(i)) - R(b.get(i))) * (R(a.get(i)) - R(b.get(i))))
            P.ensure(s, "nearer than the distance", toz(v) == (SQRT(P, s, sq) < m))


def seed_proof(mod, nm):
    @proof("C12", "a sprout's population is the delegate and mutations of it, of the configured size (%s)" % nm, mod + "population_from_delegate")
    def pr(P):
        n, D = P.int("size", 1), P.int("D", 1)
        d = P.vec("delegate", D)
        dims, rate, eta = Opaque("dims"), P.real("rate"), P.real("eta")
        ISMUT = P.fn1("MUTANT", Rl, I, Bo)

        def mutate(e, st, a, kw, node):
            x, dm, r, t = (list(a) + list(kw.values()))[:4]
            P.ensure(st, "mutations of the delegate", e.seq_eq(st, e.seq_of(x, st), d))
            P.ensure(st, "inside the bounds, with the given settings", z3.And(dm is dims, R(r) == rate, R(t) == eta))
            c = e.fresh("mutant", Vec)
            v = Seq.ofvec(c, D)
            e.fact(st, z3.And(VLEN(c) == D, forall(D, lambda j: ISMUT(R(v.get(j)), toz(j)))))
            return [(st, v)]
        P.eng.contracts["algorithms.base.drivertools:mutate"] = mutate
        for s, v in P.call(P.get(mod + "population_from_delegate"), [d, n, dims, rate, eta]):
            q = P.seq(v, s)
            P.ensure(s, "the configured size", toz(q.n) == n)
            f = P.eng.seq_of(q.get(0), s)
            P.ensure(s, "the delegate comes first", z3.And(toz(f.n) == D, forall(D, lambda j: R(f.get(j)) == R(d.get(j)))))
            P.ensure(s, "then mutations of it", forall(n, lambda j: z3.And(toz(P.eng.seq_of(q.get(j), s).n) == D, forall(D, lambda k: ISMUT(R(P.eng.seq_of(q.get(j), s).get(k)), toz(k)))), lo=1))


two_modules(near_proof)
two_modules(seed_proof)


@proof("C12", "a new node is alive, not ripe, of its level, without sprouts and costs, its driver set up for the level", H + "ClassicHGS.Node.__init__")
def new_node(P):
    e = P.eng
    lv = P.int("level", 0, 2)
    names = ("mutation_etas", "mutation_rates", "crossover_etas", "crossover_rates", "metaepoch_len")
    vals = {n: [P.real("%s%d" % (n, i)) for i in range(3)] for n in names}
    arch = [SpecObj({}, "archive%d" % i) for i in range(3)]
    dims, fits = Opaque("dims"), P.lst(Seq.lit([Opaque("f0"), Opaque("f1")]))
    pop = P.lst(P.vecs("POP", P.int("NP", 1)))
    factory, blurred = Opaque("factory"), Opaque("objectives of the level")
    g = Ghost(P, made=z3.IntVal(0))
    pick = lambda xs: z3.If(lv == 0, xs[0], z3.If(lv == 1, xs[1], xs[2]))
    made = SpecObj({}, "driver")

    def driver(e, st, a, kw, node):
        P.ensure(st, "starts from the given population", getattr(kw.get("population"), "addr", None) == pop.addr)
        P.ensure(st, "in the bounds of the problem", kw.get("dims") is dims)
        P.ensure(st, "with the objectives of the level", kw.get("fitnesses") is blurred)
        for k, n in (("mutation_eta", "mutation_etas"), ("mutation_rate", "mutation_rates"), ("crossover_eta", "crossover_etas"), ("crossover_rate", "crossover_rates")):
            P.ensure(st, "the level's " + k, R(kw[k]) == pick(vals[n]))
        P.ensure(st, "with the adapter of the search", kw.get("message_adapter_factory") is factory)
        g.set(st, "made", g.get(st, "made") + 1)
        return [(st, made)]
    e.contracts["lib:spec.driver"] = driver

    def blur(e, st, a, kw, node):
        P.ensure(st, "blurred for the level", toz(num(a[1])) == lv)
        return [(st, blurred)]
    e.contracts[H + "ClassicHGS.blurred_fitnesses"] = blur
    fields = {n: P.lst(Seq.lit(v)) for n, v in vals.items()}
    fields.update(dims=dims, fitnesses=fits, driver=Builtin("spec.driver"), driver_message_adapter_factory=factory, global_fitness_archive=P.lst(Seq.lit([SymObj(ClassVal("archive", None, [], {}, None), z3.IntVal(i)) for i in range(3)])),
                  mantissa_bits=P.lst(Seq.lit([P.int("bits%d" % i) for i in range(3)])))
    owner = P.obj(H + "ClassicHGS", fields)
    cls = P.get(H + "ClassicHGS").lookup("Node")[0]
    for s, v in P.call(cls, [owner, lv, pop]):
        f = lambda a: fld(P, v, a, s)
        P.ensure(s, "one driver", z3.And(g.get(s, "made") == 1, f("driver") is made))
        P.ensure(s, "alive and not ripe", z3.And(toz(f("alive")), z3.Not(toz(f("ripe")))))
        P.ensure(s, "of its level", toz(num(f("level"))) == lv)
        P.ensure(s, "without cost", R(f("current_cost")) == 0)
        P.ensure(s, "steps per metaepoch of the level", R(f("metaepoch_len")) == pick(vals["metaepoch_len"]))
        for a in ("population", "sprouts", "delegates"):
            P.ensure(s, "no %s yet" % a, toz(P.seq(f(a), s).n) == 0)
        P.ensure(s, "belongs to the search", f("owner") is owner or getattr(f("owner"), "addr", None) == owner.addr)


@proof("C12", "a step runs a metaepoch, prunes, sprouts and revives, in this order; every level is pruned", H + "ClassicHGS.step, trim_sprouts, trim_all, release_new_sprouts")
def step(P):
    w = Tree(P)
    e = P.eng
    g = Ghost(P, phase=z3.IntVal(0), **{"p%d" % l: z3.IntVal(0) for l in range(3)}, **{"r%d" % l: z3.IntVal(0) for l in range(3)})
    cnt = [P.int("L%d" % l, 0) for l in range(3)]
    LV = [P.fn1("ATLEVEL%d" % l, I, I) for l in range(3)]
    lists = [P.lst(Seq(cnt[l], lambda i, l=l: SymObj(w.cls, LV[l](toz(i))))) for l in range(3)]
    nodes = P.lst(Seq(P.int("N", 0), lambda i: SymObj(w.cls, toz(i))))
    root = SymObj(w.cls, P.int("root"))
    hgs = P.obj(H + "ClassicHGS", dict(nodes=nodes, level_nodes=P.dct(list(zip(range(3), lists))), root=root))

    def phase(k, name):
        def h(e, st, a, kw, node):
            P.ensure(st, name + " in its place", g.get(st, "phase") == k)
            g.set(st, "phase", g.get(st, "phase") + 1)
            return [(st, None)]
        return h
    e.contracts[H + "ClassicHGS.run_metaepoch"] = phase(0, "the metaepoch")

    def trim(which):
        def h(e, st, a, kw, node):
            P.ensure(st, "pruned after the metaepoch, before sprouting", g.get(st, "phase") == 1)
            l = [k for k in range(3) if lists[k].addr == getattr(a[1], "addr", None)]
            if len(l) != 1:
                raise Unsupported("pruning of another list")
            if which == "r":
                P.ensure(st, "redundancy after progress", g.get(st, "p%d" % l[0]) == 1)
            g.set(st, which + str(l[0]), g.get(st, which + str(l[0])) + 1)
            return [(st, None)]
        return h
    e.contracts[H + "ClassicHGS.trim_not_progressing"], e.contracts[H + "ClassicHGS.trim_redundant"] = trim("p"), trim("r")

    def sprout(e, st, a, kw, node):
        P.ensure(st, "sprouting starts at the root", a[0].term == root.term)
        P.ensure(st, "after pruning every level", z3.And(g.get(st, "phase") == 1, *[g.get(st, x + str(l)) == 1 for x in "pr" for l in range(3)]))
        g.set(st, "phase", z3.IntVal(2))
        return [(st, None)]
    e.contracts[H + "ClassicHGS.Node.release_new_sprouts"] = e.contracts[H + "Node.release_new_sprouts"] = sprout
    e.contracts[H + "ClassicHGS.revive_root"] = phase(2, "revival")
    for s, v in P.call(P.method(hgs, "step"), [hgs]):
        P.ensure(s, "all phases", g.get(s, "phase") == 3)
        P.ensure(s, "each level once", z3.And(*[g.get(s, x + str(l)) == 1 for x in "pr" for l in range(3)]))


@proof("C12", "after a metaepoch the population, the delegates and both hypervolumes are those of the run", H + "ClassicHGS.Node._after_metaepoch, update_dominated_hypervolume")
def after_metaepoch(P):
    e = P.eng
    hv, old, rel, norel, val = P.real("hv"), P.real("oldhv"), P.real("rel"), P.bool("norel"), P.real("measured")
    dim = P.int("D", 1)
    q = P.vecs("RESULT", P.int("NR", 0), dim)
    final = P.lst(q)
    dl = P.lst(P.vecs("DELEGATE", P.int("ND", 0), dim))
    drv = SpecObj({"finalized_population": METHOD(lambda s, a: final), "message_adapter": SpecObj({"nominate_delegates": METHOD(lambda s, a: dl)}, "adapter")}, "driver")
    OBJ = [P.fn1("OBJECTIVE%d" % k, Vec, z3.RealSort()) for k in range(2)]
    fs = P.lst(Seq.lit([UFun(lambda e, s, a, f=f: [(s, f(SEQV(e.seq_of(a[0], s))))], "objective") for f in OBJ]))
    ref = Opaque("reference point")
    owner = P.obj(H + "ClassicHGS", dict(fitnesses=fs, reference_point=ref))
    node = P.obj(P.get(H + "ClassicHGS").lookup("Node")[0], dict(driver=drv, owner=owner, hypervolume=hv, old_hypervolume=old, relative_hypervolume=Opt.mk(norel, rel), delegates=P.lst(Seq.lit([])), population=P.lst(Seq.lit([]))))

    def hyper(e, st, a, kw, nd):
        P.ensure(st, "up to the configured reference point", a[0] is ref)

        def compute(s, args):
            fv = P.seq(args[0], s)
            P.ensure(s, "the objectives of every solution of the run", z3.And(toz(fv.n) == toz(q.n), forall(q.n, lambda i: z3.And(toz(e.seq_of(fv.get(i), s).n) == 2, *[R(e.seq_of(fv.get(i), s).get(k)) == OBJ[k](q.ety(toz(i))) for k in range(2)]))))
            return val
        return [(st, SpecObj({"compute": METHOD(compute)}, "hypervolume"))]
    e.contracts["algorithms.base.hv:HyperVolume"] = hyper
    e.contracts["lib:random.shuffle"] = lambda e, st, a, kw, nd: (P.ensure(st, "the delegates are shuffled", getattr(a[0], "addr", None) == dl.addr), [(st, None)])[1]
    for s, v in P.call(P.method(node, "_after_metaepoch"), [node]):
        at = lambda a: fld(P, node, a, s)
        pq, dq = P.seq(at("population"), s), P.seq(at("delegates"), s)
        P.ensure(s, "the population of the run", z3.And(toz(pq.n) == toz(q.n), forall(q.n, lambda i: SEQV(pq.get(i)) == q.ety(toz(i)))))
        P.ensure(s, "as many delegates as nominated", toz(dq.n) == z3.Int("ND"))
        P.ensure(s, "the previous hypervolume is remembered", R(at("old_hypervolume")) == hv)
        rv = Opt.of(at("relative_hypervolume"))
        P.ensure(s, "the first run sets the origin", z3.And(z3.Not(toz(rv.isnone)), R(rv.val) == z3.If(norel, val, rel)))
        P.ensure(s, "later ones measure from it", R(at("hypervolume")) == z3.If(norel, hv, val - rel))


@proof("C12", "the result is the solutions of all nodes, node after node", H + "ClassicHGS.finalized_population")
def result(P):
    n = P.int("N", 0)
    e = P.eng
    ND = ClassVal("anode", None, [], {}, None)
    LEN = P.fn1("NODEPOP", I, I)
    EL = P.fn1("MEMBER", I, I, Vec)
    i = z3.Int("i!n")
    P.fact(z3.ForAll([i], LEN(i) >= 0, patterns=[LEN(i)]))
    P.st.heap[("F", "anode", "population")] = FMap(lambda t: Seq(LEN(t), lambda j: Seq.ofvec(EL(t, toz(j)))))
    hgs = P.obj(H + "ClassicHGS", dict(nodes=P.lst(Seq(n, lambda k: SymObj(ND, toz(k))))))
    off = lambda k: SUM(P, k, lambda i: LEN(toz(i)))

    def cands(eng, st):
        out = []
        for nm, x in st.frames[st.cur].items():
            if isinstance(x, ListRef) and P.seq(x, st).is_lit and P.seq(x, st).n == 0:
                out.append(lambda s, k, x=x: toz(P.seq(x, s).n) == off(k))
        return out
    e.loop_inv, e.inv_for = cands, True
    for s, v in P.call(P.method(hgs, "finalized_population"), [hgs]):
        P.ensure(s, "as many as all nodes have", toz(P.seq(v, s).n) == off(n))


def search_args(P):
    """constructor arguments of a hierarchic search"""
    lit = lambda n: P.lst(Seq.lit([P.real("%s%d" % (n, i)) for i in range(3)]))
    D = P.int("D", 1)
    LO, HI = P.fn1("LOW", I, Rl), P.fn1("HIGH", I, Rl)
    kw = dict(population=P.lst(P.vecs("POP", P.int("NP", 1), D)), dims=P.lst(Seq(D, lambda k: (LO(toz(k)), HI(toz(k))))), fitnesses=P.lst(Seq.lit([Opaque("f0"), Opaque("f1")])), driver=Opaque("driver"),
              reference_point=Opaque("reference point"), driver_message_adapter_factory=Opaque("factory"), max_level=P.int("max_level", 0, 2), max_sprouts_no=P.int("max_sprouts", 0), sproutiveness=P.int("sproutiveness", 0))
    for n in ("fitness_errors", "cost_modifiers", "mutation_etas", "crossover_etas", "mutation_rates", "crossover_rates", "min_progress_ratio"):
        kw[n] = lit(n)
    for n in ("mantissa_bits", "metaepoch_len", "population_sizes"):
        kw[n] = P.lst(Seq.lit([P.int("%s%d" % (n, i), 1) for i in range(3)]))
    kw["comparison_multipliers"] = lit("multiplier")
    corner = lambda s: SQRT(P, s, SUM(P, D, lambda k: (LO(toz(k)) - HI(toz(k))) * (LO(toz(k)) - HI(toz(k)))))
    return kw, corner


def kept(P, s, o, kw, corner):
    """the settings of the search are those given; lists it changes are its own"""
    at = lambda a: fld(P, o, a, s)
    for a in ("dims", "fitnesses", "fitness_errors", "cost_modifiers", "metaepoch_len", "mutation_etas", "mutation_rates", "crossover_etas", "crossover_rates", "population_sizes", "mantissa_bits"):
        P.ensure(s, a + " as given", P.eng.seq_eq(s, P.seq(at(a), s), P.seq(kw[a], P.st)) if a not in ("dims", "fitnesses") else getattr(at(a), "addr", None) == kw[a].addr)
    for a in ("max_level", "max_sprouts_no", "sproutiveness"):
        P.ensure(s, a + " as given", toz(num(at(a))) == kw[a])
    P.ensure(s, "its own progress thresholds", at("min_progress_ratio").addr != kw["min_progress_ratio"].addr)
    P.ensure(s, "which start as given", P.eng.seq_eq(s, P.seq(at("min_progress_ratio"), s), P.seq(kw["min_progress_ratio"], P.st)))
    md, mu = P.seq(at("min_dists"), s), P.seq(kw["comparison_multipliers"], P.st)
    P.ensure(s, "one distance per level", toz(md.n) == 3)
    for l in range(3):
        P.ensure(s, "distance of level %d: its share of the diagonal of the domain" % l, R(md.get(l)) == R(mu.get(l)) * corner(s))


@proof("C12", "a new search has one node, the root, grown from a sample of the population; its thresholds are its own", H + "ClassicHGS.__init__")
def new_search(P):
    e = P.eng
    kw, corner = search_args(P)
    w = Tree(P)
    sizes = P.seq(kw["population_sizes"], P.st)
    P.assume(sizes.get(0) <= z3.Int("NP"))
    g = Ghost(P, made=z3.IntVal(0))
    picked = P.lst(P.vecs("SAMPLE", sizes.get(0)))

    def sample(e, st, a, k, node):
        P.ensure(st, "a sample of the population", getattr(a[0], "addr", None) == kw["population"].addr)
        P.ensure(st, "of the size of the first level", toz(num(a[1])) == sizes.get(0))
        return [(st, picked)]
    e.contracts["lib:random.sample"] = sample
    root = SymObj(w.cls, P.int("root"))

    def make(e, st, a, k, node):
        P.ensure(st, "the root is of level 0", toz(num(a[1])) == 0)
        P.ensure(st, "and starts from the sample", getattr(a[2], "addr", None) == picked.addr)
        g.set(st, "made", g.get(st, "made") + 1)
        return [(st, root)]
    e.contracts[w.cls.module.name + ":" + w.cls.name] = make
    e.contracts[H + "ResultArchive"] = lambda e, st, a, k, node: [(st, P.obj(ClassVal("archive", None, [], {}, None), {}, st=st))]
    for s, v in P.call(P.get(H + "ClassicHGS"), [], kw):
        kept(P, s, v, kw, corner)
        P.ensure(s, "one node", z3.And(g.get(s, "made") == 1, fld(P, v, "root", s).term == root.term))
        q = P.seq(fld(P, v, "nodes", s), s)
        P.ensure(s, "all nodes: the root", z3.And(toz(q.n) == 1, q.get(0).term == root.term))
        for l in range(3):
            q = P.seq(dget(P, s, fld(P, v, "level_nodes", s), l), s)
            P.ensure(s, "nodes of level %d" % l, z3.And(toz(q.n) == 1, q.get(0).term == root.term) if l == 0 else toz(q.n) == 0)
        P.ensure(s, "no cost yet", R(fld(P, v, "cost", s)) == 0)
        arch = P.seq(fld(P, v, "global_fitness_archive", s), s)
        P.ensure(s, "one archive per level", toz(arch.n) == 3)
        P.ensure(s, "each its own", len({arch.get(k).addr for k in range(3)}) == 3)
