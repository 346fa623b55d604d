from .lib import *

T = "algorithms.HGS.distributed.hgs_tasks:"
M = "algorithms.HGS.distributed.message:"
A = "algorithms.HGS.distributed.actors:"
ADDR = ClassVal("address", None, [], {}, None)
UUID = ClassVal("uuid", None, [], {}, None)
I = z3.IntSort()


class Sup:
    """a supervisor with any number of nodes, its outgoing messages recorded by ghost state"""

    def __init__(self, P, request=None, data=None):
        self.P = P
        e = P.eng
        # the nodes of the three levels are numbered one after another; the list of all nodes is in any order
        self.cnt = [P.int("N%d" % l, 0) for l in range(3)]
        self.off = [z3.IntVal(0), self.cnt[0], self.cnt[0] + self.cnt[1]]
        self.N = self.cnt[0] + self.cnt[1] + self.cnt[2]
        self.ORD, self.POS = P.fn1("ORDER", I, I), P.fn1("POSITION", I, I)
        i = z3.Int("i!o")
        P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.N), z3.And(0 <= self.ORD(i), self.ORD(i) < self.N, self.POS(self.ORD(i)) == i)), patterns=[self.ORD(i)]))
        P.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.N), z3.And(0 <= self.POS(i), self.POS(i) < self.N, self.ORD(self.POS(i)) == i)), patterns=[self.POS(i)]))
        self.nodes = P.lst(Seq(self.N, lambda i: SymObj(ADDR, self.ORD(toz(i)))))
        self.levels = P.dct([(l, P.lst(Seq(self.cnt[l], lambda i, l=l: SymObj(ADDR, self.off[l] + toz(i))))) for l in range(3)])
        P.st.heap[("F", "address", "asked")] = FMap(lambda t: z3.IntVal(0))
        self.g = g = Ghost(P, requests=z3.IntVal(0), done=z3.IntVal(0))
        self.NO, self.HO = P.get(M + "NodeOperation"), P.get(M + "HgsOperation")
        self.boss = SymObj(ADDR, z3.IntVal(-1))
        self.bossid = SymObj(UUID, z3.IntVal(-1))
        self.request, self.data, self.final = request, data, None
        self.LV = P.fn1("LEVEL", I, I)
        e.contracts["lib:uuid.uuid4"] = lambda e, st, a, kw, node: [(st, SymObj(UUID, e.fresh_int("uuid")))]

        def send(e, st, args, kw, node):
            target, msg = args[1], args[2]
            op, mid, dat = [fld(P, msg, a, st) for a in ("operation", "id", "data")]
            if not (isinstance(target, SymObj) and isinstance(mid, SymObj)):
                raise Unsupported("address of another form")
            if not z3.is_true(z3.simplify(target.term == -1)):
                P.ensure(st, "request to a node of the supervisor", z3.And(target.term >= 0, target.term < self.N))
                P.ensure(st, "the request the task is for", op is self.op(self.request))
                P.ensure(st, "the request carries the task's id", mid.term == 1)
                if data:
                    P.ensure(st, "the request carries its data", data(st, target.term, dat))
                a = fld(P, target, "asked", st)
                e.setattr(st, target, "asked", a + 1)
                g.set(st, "requests", g.get(st, "requests") + 1)
            else:
                P.ensure(st, "the answer carries the asker's id", mid.term == -1)
                P.ensure(st, "one answer", g.get(st, "done") == 0)
                if self.final:
                    self.final(st, op, dat)
                g.set(st, "done", g.get(st, "done") + 1)
            return [(st, None)]
        e.contracts[A + "TaskActor.send"] = send
        e.contracts[A + "TaskActor.log"] = lambda e, st, a, kw, node: [(st, None)]

        def cands(eng, st):
            asked = lambda s, j: fld(P, SymObj(ADDR, j), "asked", s)
            out = [lambda s, k: g.get(s, "requests") == g.get(st, "requests") + k, lambda s, k: g.get(s, "done") == g.get(st, "done")]
            # the nodes in the order of the list, or those of one level
            out.append(lambda s, k: forall(self.N, lambda j: asked(s, j) == z3.If(self.POS(j) < k, 1, 0)))
            for l in range(3):
                out.append(lambda s, k, l=l: forall(self.N, lambda j: asked(s, j) == asked(st, j) + z3.If(z3.And(self.off[l] <= j, j < self.off[l] + k), 1, 0)))
            return out
        e.loop_inv, e.inv_for = cands, True
        P.inv_timeout(1500)

    def op(self, n):
        return fld(self.P, self.NO, n, self.P.st)

    def hop(self, n):
        return fld(self.P, self.HO, n, self.P.st)

    def task(self, cls, **fields):
        P = self.P
        self.tid = SymObj(UUID, z3.IntVal(1))
        self.sup = P.obj(A + "HgsNodeSupervisor", dict(nodes=self.nodes, node_states=P.lst(Seq.lit([])), cost=P.real("cost"), level_nodes=self.levels))
        return P.new(T + cls, [self.sup], id=self.tid, **fields)

    def conf(self, **fields):
        self.P.eng.setattr(self.P.st, self.sup, "config", self.P.obj(A + "HgsConfig", fields))

    def size(self, lv):
        return z3.If(lv == 0, self.cnt[0], z3.If(lv == 1, self.cnt[1], z3.If(lv == 2, self.cnt[2], z3.IntVal(0))))

    def lo(self, lv):
        return z3.If(lv == 0, self.off[0], z3.If(lv == 1, self.off[1], self.off[2]))

    def ask(self, op, data=None):
        return self.P.obj(M + "HgsMessage", dict(operation=self.hop(op), id=self.bossid, data=data))

    def each_asked(self, s):
        P = self.P
        P.ensure(s, "every node is asked exactly once", forall(self.N, lambda j: fld(P, SymObj(ADDR, toz(j)), "asked", s) == 1))
        P.ensure(s, "and nobody else", self.g.get(s, "requests") == self.N)
        P.ensure(s, "no answer before the nodes answered", self.g.get(s, "done") == 0)


@proof("C18", "metaepoch: every node is asked once", T + "MetaepochHgsTask.start_metaepoch")
def meta(P):
    w = Sup(P, "NEW_METAEPOCH")
    t = w.task("MetaepochHgsTask")
    for s, v in P.call(P.method(t, "start_metaepoch"), [t, w.ask("NEW_METAEPOCH"), w.boss]):
        w.each_asked(s)
        P.ensure(s, "as many answers are awaited", toz(num(fld(P, t, "requests_count", s))) == w.N)


@proof("C18", "metaepoch: answered exactly when every node has answered, with the largest weighted cost", T + "MetaepochHgsTask.finish_metaepoch")
def meta_end(P):
    w = Sup(P)
    n, done = P.int("n", 1), P.int("done", 0)
    P.assume(done < n)
    K = P.int("K", 0)
    costs = P.reals("COST", K)
    empty = P.bool("dead")
    level = P.int("level", 0, 2)
    ec = P.real("epoch_cost")
    mods = P.lst(Seq.lit([P.real("modifier%d" % i) for i in range(3)]))
    data = Opt.mk(empty, P.obj(ClassVal("Result", None, [], {}, None), dict(level=level, epoch_cost=ec)))
    cost0 = P.real("cost")
    P.assume(ec >= 0)
    for i in range(3):
        P.assume(z3.Real("modifier%d" % i) >= 0)
    P.fact(z3.ForAll([z3.Int("c!")], z3.Implies(z3.And(0 <= z3.Int("c!"), z3.Int("c!") < K), costs.ety(z3.Int("c!")) >= 0)))
    own = R(P.seq(mods, P.st).get(0)) if False else z3.If(level == 0, z3.Real("modifier0"), z3.If(level == 1, z3.Real("modifier1"), z3.Real("modifier2"))) * ec
    all_ = lambda i: z3.If(i == K, own, costs.ety(i))
    n1 = z3.If(empty, K, K + 1)
    fin = []

    def final(st, op, dat):
        P.ensure(st, "answered with the end of the metaepoch", op is w.hop("METAEPOCH_END"))
        P.ensure(st, "reports the total cost", R(dat) == R(fld(P, w.sup, "cost", st)))
        P.ensure(st, "answered only when all have answered", done + 1 == n)
    w.final = final
    t = w.task("MetaepochHgsTask", nodes_finished=done, sender=w.boss, sender_task_id=w.bossid, requests_count=n, metaepoch_costs=P.lst(costs))
    w.conf(cost_modifiers=mods)
    msg = P.obj(M + "NodeMessage", dict(operation=w.op("METAEPOCH_END"), id=w.tid, data=data))
    for s, v in P.call(P.method(t, "finish_metaepoch"), [t, msg, SymObj(ADDR, P.int("who", 0))]):
        P.ensure(s, "answered exactly when the last node answers", (w.g.get(s, "done") == 1) == (done + 1 == n))
        P.ensure(s, "the answers are counted", toz(num(fld(P, t, "nodes_finished", s))) == done + 1)
        c = R(fld(P, w.sup, "cost", s))
        P.ensure(s, "cost unchanged before", z3.Implies(done + 1 < n, c == cost0))
        P.ensure(s, "at least every node's weighted cost", z3.Implies(done + 1 == n, forall(n1, lambda j: c - cost0 >= all_(j))))
        P.ensure(s, "equal to one of them", z3.Implies(z3.And(done + 1 == n, n1 > 0), exists(n1, lambda j: c - cost0 == all_(j))))
        P.ensure(s, "nothing when no node ran", z3.Implies(z3.And(done + 1 == n, n1 == 0), c == cost0))


def levels_asked(w, s, lv=None):
    """the nodes of level lv (all when None) are asked once, the others not at all"""
    P = w.P
    asked = lambda j: fld(P, SymObj(ADDR, toz(j)), "asked", s)
    inn = lambda j: z3.BoolVal(True) if lv is None else z3.And(j >= w.lo(lv), j < w.lo(lv) + w.size(lv))
    P.ensure(s, "exactly the nodes concerned are asked, once", forall(w.N, lambda j: asked(toz(j)) == z3.If(inn(toz(j)), 1, 0)))


def status(scope):
    @proof("C18", "status: %s is asked; none to ask is answered at once" % ("every node" if scope is None else "exactly one level"), T + "StatusHgsTask.send_check")
    def pr(P):
        w = Sup(P, "CHECK_STATUS")
        lv = None if scope is None else P.int("level", 0, 5)

        def final(st, op, dat):
            P.ensure(st, "answered with the status", op is w.hop("CHECK_STATUS"))
            P.ensure(st, "with no states", toz(P.seq(dat, st).n) == 0)
            P.ensure(st, "only when there is nobody to ask", (w.N if lv is None else w.size(lv)) == 0)
        w.final = final
        t = w.task("StatusHgsTask")
        w.conf(max_level=2)
        for s, v in P.call(P.method(t, "send_check"), [t, w.ask("CHECK_STATUS", lv), w.boss]):
            levels_asked(w, s, lv)
            P.ensure(s, "answered at once exactly when there is nobody to ask", (w.g.get(s, "done") == 1) == ((w.N if lv is None else w.size(lv)) == 0))


status(None)
status("level")


@proof("C18", "status: answered exactly when all asked nodes answered, with their states in order of arrival", T + "StatusHgsTask.finish_check")
def status_end(P):
    w = Sup(P)
    n, K = P.int("n", 1), P.int("K", 0)
    P.assume(K < n)
    asked = P.lst(Seq(n, lambda i: SymObj(ADDR, w.ORD(toz(i)))))
    ST = ClassVal("state", None, [], {}, None)
    AR = P.fn1("ARRIVED", I, I)
    new = SymObj(ST, P.int("new"))

    def final(st, op, dat):
        P.ensure(st, "answered with the status", op is w.hop("CHECK_STATUS"))
        q = P.seq(dat, st)
        P.ensure(st, "one state per asked node", toz(q.n) == n)
        P.ensure(st, "the earlier answers", forall(K, lambda j: q.get(j).term == AR(j)))
        P.ensure(st, "and the last one", q.get(K).term == new.term)
    w.final = final
    t = w.task("StatusHgsTask", sender=w.boss, sender_task_id=w.bossid, nodes_to_check=asked, nodes_states=P.lst(Seq(K, lambda i: SymObj(ST, AR(toz(i))))))
    msg = P.obj(M + "NodeMessage", dict(operation=w.op("CHECK_STATUS"), id=w.tid, data=new))
    who = P.int("who", 0)
    for s, v in P.call(P.method(t, "finish_check"), [t, msg, SymObj(ADDR, who)]):
        P.ensure(s, "answered exactly when the last node answers", (w.g.get(s, "done") == 1) == (K + 1 == n))
        q = P.seq(fld(P, t, "nodes_states", s), s)
        P.ensure(s, "the answer is recorded", z3.And(toz(q.n) == K + 1, q.get(K).term == new.term))
        P.ensure(s, "earlier answers are kept", forall(K, lambda j: q.get(j).term == AR(j)))


@proof("C18", "population: every node is asked once", T + "PopulationHgsTask.get_nodes_populations")
def pop(P):
    w = Sup(P, "POPULATION")
    t = w.task("PopulationHgsTask")
    for s, v in P.call(P.method(t, "get_nodes_populations"), [t, w.ask("POPULATION"), w.boss]):
        w.each_asked(s)
        P.ensure(s, "as many answers are awaited", toz(num(fld(P, t, "requests_count", s))) == w.N)


@proof("C18", "population: answered exactly when every node has answered, with all their solutions", T + "PopulationHgsTask.receive_population")
def pop_end(P):
    w = Sup(P)
    n, done, K, L = P.int("n", 1), P.int("done", 0), P.int("K", 0), P.int("L", 0)
    P.assume(done < n)
    have, new = P.vecs("HAVE", K), P.vecs("NEW", L)

    def both(q, tag, st):
        P.ensure(st, tag + ": all solutions", toz(q.n) == K + L)
        P.ensure(st, tag + ": the earlier ones", forall(K, lambda j: SEQV(q.get(j)) == have.ety(j)))
        P.ensure(st, tag + ": those of this node", forall(L, lambda j: SEQV(q.get(K + j)) == new.ety(j)))

    def final(st, op, dat):
        P.ensure(st, "answered with the population", op is w.hop("POPULATION"))
        both(P.seq(dat, st), "answer", st)
    w.final = final
    t = w.task("PopulationHgsTask", nodes_finished=done, sender=w.boss, sender_task_id=w.bossid, requests_count=n, merged_population=P.lst(have))
    w.conf(max_level=2)
    msg = P.obj(M + "NodeMessage", dict(operation=w.op("POPULATION"), id=w.tid, data=P.lst(new)))
    for s, v in P.call(P.method(t, "receive_population"), [t, msg, SymObj(ADDR, P.int("who", 0))]):
        P.ensure(s, "answered exactly when the last node answers", (w.g.get(s, "done") == 1) == (done + 1 == n))
        both(P.seq(fld(P, t, "merged_population", s), s), "merged", s)


@proof("C18", "progress pruning: every node is asked once, with the threshold of its level", T + "TrimNotProgressingHgsTask.send_trim_request")
def trim(P):
    rat = [P.real("ratio%d" % i) for i in range(3)]
    w = Sup(P, "TRIM_NOT_PROGRESSING")
    w.data = lambda st, t, dat: R(dat) == z3.If(t < w.off[1], rat[0], z3.If(t < w.off[2], rat[1], rat[2]))
    t = w.task("TrimNotProgressingHgsTask")
    w.conf(min_progress_ratio=P.lst(Seq.lit(rat)))
    for s, v in P.call(P.method(t, "send_trim_request"), [t, w.ask("TRIM_NOT_PROGRESSING"), w.boss]):
        w.each_asked(s)
        P.ensure(s, "as many answers are awaited", toz(num(fld(P, t, "requests_count", s))) == w.N)


def counted(cls, meth, request, end, extra=None):
    @proof("C18", "%s: answered exactly when every node has confirmed" % request.lower().replace("_", " "), T + cls + "." + meth)
    def pr(P):
        w = Sup(P)
        n, done = P.int("n", 1), P.int("done", 0)
        P.assume(done < n)
        w.final = lambda st, op, dat: P.ensure(st, "answered with the end of the task", op is w.hop(end))
        t = w.task(cls, nodes_finished=done, sender=w.boss, sender_task_id=w.bossid, **{"ripe_nodes_count" if cls == "ReviveHgsTask" else "requests_count": n})
        msg = P.obj(M + "NodeMessage", dict(operation=w.op(request), id=w.tid, data=None))
        for s, v in P.call(P.method(t, meth), [t, msg, SymObj(ADDR, P.int("who", 0))]):
            P.ensure(s, "answered exactly when the last node confirms", (w.g.get(s, "done") == 1) == (done + 1 == n))
            P.ensure(s, "confirmations are counted", toz(num(fld(P, t, "nodes_finished", s))) == done + 1)


counted("TrimNotProgressingHgsTask", "receive_trim_confirmation", "TRIM_NOT_PROGRESSING_END", "TRIM_NOT_PROGRESSING_END")
counted("ReviveHgsTask", "receive_revive_confirmation", "REVIVE", "REVIVE_END")


@proof("C18", "redundancy pruning: every node's state is asked once", T + "TrimRedundantHgsTask.send_trim_request")
def red(P):
    w = Sup(P, "CHECK_STATUS")
    t = w.task("TrimRedundantHgsTask")
    for s, v in P.call(P.method(t, "send_trim_request"), [t, w.ask("TRIM_REDUNDANT"), w.boss]):
        w.each_asked(s)
        P.ensure(s, "as many answers are awaited", toz(num(fld(P, t, "requests_count", s))) == w.N)


# ------------------------------------------------------------------ the nodes' side
N = "algorithms.HGS.distributed.node_tasks:"


class Nd:
    """a node of the tree, its outgoing messages recorded by ghost state"""

    def __init__(self, P, **fields):
        self.P = P
        e = P.eng
        self.NO, self.HO = P.get(M + "NodeOperation"), P.get(M + "HgsOperation")
        self.asker, self.boss, self.me = [SymObj(ADDR, z3.IntVal(k)) for k in (-1, -2, -3)]
        self.askid = SymObj(UUID, P.int("askid"))
        self.tid = SymObj(UUID, P.int("taskid"))
        self.g = Ghost(P, sent=z3.IntVal(0), other=z3.IntVal(0))
        self.reply = self.request = None
        self.dim = P.int("D", 1)
        self.pop = P.vecs("POP", P.int("NP", 0), self.dim)
        self.level, self.alive, self.ripe = P.int("level", 0, 2), P.bool("alive"), P.bool("ripe")
        f = dict(level=self.level, alive=self.alive, ripe=self.ripe, population=P.lst(self.pop), supervisor=self.boss, myAddress=self.me)
        f.update(fields)
        self.node = P.obj(A + "Node", f)
        e.contracts["lib:uuid.uuid4"] = lambda e, st, a, kw, node: [(st, SymObj(UUID, e.fresh_int("uuid")))]

        def send(e, st, args, kw, node):
            target, msg = args[1], args[2]
            op, mid, dat = [fld(P, msg, a, st) for a in ("operation", "id", "data")]
            if not (isinstance(target, SymObj) and isinstance(mid, SymObj)):
                raise Unsupported("address of another form")
            if self.request and not z3.is_true(z3.simplify(target.term == -1)):
                self.request(st, target, op, mid, dat)
                self.g.set(st, "other", self.g.get(st, "other") + 1)
            else:
                P.ensure(st, "the answer goes to the asker", target.term == -1)
                P.ensure(st, "it carries the asker's id", mid.term == self.askid.term)
                self.reply(st, op, dat)
                self.g.set(st, "sent", self.g.get(st, "sent") + 1)
            return [(st, None)]
        e.contracts[A + "TaskActor.send"] = send
        e.contracts[A + "TaskActor.log"] = lambda e, st, a, kw, node: [(st, None)]

    def op(self, n):
        return fld(self.P, self.NO, n, self.P.st)

    def hop(self, n):
        return fld(self.P, self.HO, n, self.P.st)

    def task(self, cls, **fields):
        return self.P.new(N + cls, [self.node], id=self.tid, **fields)

    def ask(self, op, data=None):
        return self.P.obj(M + "NodeMessage", dict(operation=self.op(op), id=self.askid, data=data))

    def at(self, s, a):
        return fld(self.P, self.node, a, s)

    def state_of(self, st, dat, alive=None, ripe=None, centre=True):
        """a reported state is that of the node"""
        P = self.P
        g = lambda a: fld(P, dat, a, st)
        P.ensure(st, "the reported level", toz(num(g("level"))) == self.level)
        P.ensure(st, "reported alive exactly when alive", toz(g("alive")) == (self.alive if alive is None else alive))
        P.ensure(st, "reported ripe exactly when ripe", toz(g("ripe")) == (self.ripe if ripe is None else ripe))
        P.ensure(st, "the reported size", toz(num(g("population_len"))) == toz(self.pop.n))
        if not centre:
            return
        c = g("center")
        n, d = toz(self.pop.n), toz(self.pop.get(0).n)
        if isinstance(c, Opt):
            P.ensure(st, "no centre without solutions", toz(c.none) == (n == 0))
            c = c.val
        elif c is None:
            P.ensure(st, "no centre without solutions", n == 0)
            return
        else:
            P.ensure(st, "a centre only of solutions", n > 0)
        q = P.seq(c, st)
        P.ensure(st, "the centre has one value per variable", Implies(n > 0, toz(q.n) == d))
        P.ensure(st, "the centre is the mean of the solutions", Implies(n > 0, forall(d, lambda j: R(q.get(j)) * n == SUM(P, n, lambda i: R(self.pop.get(i).get(j))))))


@proof("C18", "node: a status request is answered once, with the state of the node", N + "CheckStatusNodeTask.send_status, create_node_state")
def node_status(P):
    w = Nd(P)

    def reply(st, op, dat):
        P.ensure(st, "answered with the status", op is w.op("CHECK_STATUS"))
        w.state_of(st, dat)
    w.reply = reply
    t = w.task("CheckStatusNodeTask")
    for s, v in P.call(P.method(t, "send_status"), [t, w.ask("CHECK_STATUS"), w.asker]):
        P.ensure(s, "one answer", w.g.get(s, "sent") == 1)


@proof("C18", "node: revived nodes are alive and not ripe, and say so once", N + "ReviveNodeTask.revive")
def node_revive(P):
    w = Nd(P)
    w.reply = lambda st, op, dat: P.ensure(st, "answered with the revival", op is w.op("REVIVE"))
    t = w.task("ReviveNodeTask")
    for s, v in P.call(P.method(t, "revive"), [t, w.ask("REVIVE"), w.asker]):
        P.ensure(s, "one answer", w.g.get(s, "sent") == 1)
        P.ensure(s, "alive", toz(w.at(s, "alive")))
        P.ensure(s, "not ripe any more", z3.Not(toz(w.at(s, "ripe"))))


@proof("C18", "node: a killed node is not alive and its ripeness stays", N + "KillNodeTask.kill")
def node_kill(P):
    w = Nd(P)
    w.reply = lambda st, op, dat: P.ensure(st, "no answer is expected", False)
    t = w.task("KillNodeTask")
    for s, v in P.call(P.method(t, "kill"), [t, w.ask("KILL"), w.asker]):
        P.ensure(s, "dead", z3.Not(toz(w.at(s, "alive"))))
        P.ensure(s, "ripe as before", toz(w.at(s, "ripe")) == w.ripe)


@proof("C18", "node: a population request is answered once, with the population", N + "GetPopulationNodeTask.send_population")
def node_pop(P):
    w = Nd(P)

    def reply(st, op, dat):
        P.ensure(st, "answered with the population", op is w.op("POPULATION"))
        q = P.seq(dat, st)
        P.ensure(st, "every solution", toz(q.n) == toz(w.pop.n))
        P.ensure(st, "as it is", forall(w.pop.n, lambda j: SEQV(q.get(j)) == w.pop.ety(j)))
    w.reply = reply
    t = w.task("GetPopulationNodeTask")
    for s, v in P.call(P.method(t, "send_population"), [t, w.ask("POPULATION"), w.asker]):
        P.ensure(s, "one answer", w.g.get(s, "sent") == 1)


@proof("C18", "node: exactly the live nodes that stop progressing are retired and ripe; one answer", N + "TrimNotProgressingNodeTask.trim_not_progressing")
def node_trim(P):
    hv, old, none, ratio = P.real("hv"), P.real("old"), P.bool("noold"), P.real("ratio")
    w = Nd(P, hypervolume=hv, old_hypervolume=Opt.mk(none, old), center=None)
    w.reply = lambda st, op, dat: P.ensure(st, "answered with the end of pruning", op is w.op("TRIM_NOT_PROGRESSING_END"))
    t = w.task("TrimNotProgressingNodeTask")
    P.assume(toz(w.pop.n) > 0)
    eps = z3.RealVal(2) ** -52
    scale = z3.If(w.level == 0, z3.RealVal(1), z3.If(w.level == 1, z3.RealVal(2), z3.RealVal(4)))
    stops = z3.And(w.alive, z3.Not(none), old > 0, (hv / (old + z3.Q(1, 2 ** 52)) - 1) * scale < ratio)
    for s, v in P.call(P.method(t, "trim_not_progressing"), [t, w.ask("TRIM_NOT_PROGRESSING", ratio), w.asker]):
        P.ensure(s, "one answer", w.g.get(s, "sent") == 1)
        P.ensure(s, "alive exactly when alive before and progressing", toz(w.at(s, "alive")) == z3.And(w.alive, z3.Not(stops)))
        P.ensure(s, "ripe exactly when ripe before or just retired", toz(w.at(s, "ripe")) == z3.Or(w.ripe, stops))


REDV = z3.Function("REDUNDANT", Vec, Vec, z3.RealSort(), z3.BoolSort())
TL = "algorithms.HGS.tools:"


class Rel:
    """a node answering a sprouting request: any number of delegates, known states of the next level and sprouts"""

    def __init__(self, P, index=None, live=None, released=None, started=True):
        self.P = P
        e = P.eng
        D, K, C, S = P.int("DELEGATES", 0), P.int("KNOWN", 0), P.int("CREATED", 0), P.int("SPROUTS", 0)
        self.D, self.K, self.C, self.S = D, K, C, S
        self.dele = P.vecs("DELEGATE", D)
        self.maxl, self.maxs, self.sprt = P.int("max_level", 0, 2), P.int("max_sprouts", 0), P.int("sproutiveness", 0)
        self.dist = [P.real("dist%d" % i) for i in range(3)]
        self.size = [P.int("size%d" % i, 1) for i in range(3)]
        self.rate, self.eta = [P.real("rate%d" % i) for i in range(3)], [P.real("eta%d" % i) for i in range(3)]
        lit = lambda xs: P.lst(Seq.lit(xs))
        self.ST = ST = ClassVal("known", None, [], {}, None)
        self.LEN, self.CEN, self.KN, self.CR, self.SP = P.fn1("STATE_LEN", I, I), P.fn1("STATE_CENTRE", I, Vec), P.fn1("KNOWN_STATE", I, I), P.fn1("CREATED_STATE", I, I), P.fn1("SPROUT", I, I)
        P.st.heap[("F", "known", "population_len")] = FMap(lambda t: self.LEN(t))
        P.st.heap[("F", "known", "center")] = FMap(lambda t: Seq.ofvec(self.CEN(t)))
        self.known = P.lst(Seq(K, lambda i: SymObj(ST, self.KN(toz(i)))))
        self.created = P.lst(Seq(C, lambda i: SymObj(ST, self.CR(toz(i)))))
        self.sprouts = P.lst(Seq(S, lambda i: SymObj(ADDR, self.SP(toz(i)))))
        self.dims = Opaque("dims")
        self.w = w = Nd(P, sprouts=self.sprouts, delegates=P.lst(self.dele), max_level=self.maxl, max_hgs_sprouts_no=self.maxs, sproutiveness=self.sprt, min_dists=lit(self.dist),
                        hgs_population_sizes=lit(self.size), hgs_dims=self.dims, hgs_mutation_rates=lit(self.rate), hgs_mutation_etas=lit(self.eta))
        self.pick = lambda xs: z3.If(w.level == 0, xs[1], xs[2])
        self.index = index if index is not None else P.int("index", 0)
        self.live, self.released = live if live is not None else P.int("live", 0), released if released is not None else P.int("released", 0)
        P.assume(self.index <= D)
        self.g = g = Ghost(P, registered=z3.IntVal(0), finished=z3.IntVal(0), delegate=z3.IntVal(-1), asked=z3.IntVal(0), searched=z3.IntVal(0), live=z3.IntVal(-1))
        e.contracts[TL + "redundant"] = self.redundant
        e.contracts[TL + "population_from_delegate"] = self.candidate
        self.cands, self.states = {}, {}
        for a in ("level", "alive", "ripe"):
            F = P.fn1("STATE_" + a, I, I if a == "level" else z3.BoolSort())
            P.st.heap[("F", "known", a)] = FMap(lambda t, F=F: F(t))
        e.contracts[N + "create_node_state"] = self.state
        w.reply, w.request = self.finish, self.register
        self.t = w.task("ReleaseSproutsNodeTask", sender=w.asker, sender_task_id=w.askid, alive_sprouts_count=self.live, next_lvl_sprouts_states=self.known, sprouts_checked=P.int("checked", 0),
                        released_sprouts=self.released, current_delegate_index=self.index, created_sprouts_states=self.created)

    def redundant(self, e, st, args, kw, node):
        a, b = [e.seq_of(x, st) for x in args[:2]]
        if not (a.is_lit and b.is_lit and a.n == 1 and b.n == 1):
            raise Unsupported("redundancy of larger sets")
        return [(st, REDV(SEQV(e.seq_of(a.get(0), st)), SEQV(e.seq_of(b.get(0), st)), R(args[2])))]

    def candidate(self, e, st, a, kw, nd):
        P = self.P
        P.ensure(st, "configured size of the next level", toz(num(a[1])) == self.pick(self.size))
        P.ensure(st, "mutated with the settings of the next level", z3.And(R(a[3]) == self.pick(self.rate), R(a[4]) == self.pick(self.eta)))
        P.ensure(st, "inside the bounds of the problem", a[2] is self.dims)
        q = P.vecs("CAND%d" % next(e.counter), toz(num(a[1])), self.w.dim)
        v = P.lst(q, st)
        self.cands[v.addr] = SEQV(e.seq_of(a[0], st))
        return [(st, v)]

    def state(self, e, st, a, kw, nd):
        """contract of create_node_state (its body is proved with the status request): the given level, life and ripeness, and the size of the population"""
        c = e.fresh_int("state")
        o = SymObj(self.ST, c)
        for nm, v in zip(("level", "alive", "ripe"), a[1:4]):
            e.setattr(st, o, nm, v)
        q = e.seq_of(a[4], st)
        e.setattr(st, o, "population_len", toz(q.n))
        self.states[str(c)] = a[4]
        return [(st, o)]

    def red(self, s, d):
        """delegate d is redundant with a populated known state of the next level"""
        return exists(self.K, lambda j: z3.And(self.LEN(self.KN(j)) > 0, REDV(self.dele.ety(toz(d)), self.CEN(self.KN(j)), self.pick(self.dist))))

    def may(self):
        return z3.And(self.released < self.sprt, self.live < self.maxs)

    def register(self, st, target, op, mid, dat):
        P, w, g = self.P, self.w, self.g
        P.ensure(st, "new nodes are registered by the supervisor", target.term == w.boss.term)
        P.ensure(st, "asked to register", op is w.hop("REGISTER_NODE"))
        P.ensure(st, "under the id of this task", mid.term == w.tid.term)
        lv, pop = P.eng.seq_of(dat, st).items()
        P.ensure(st, "one level deeper", toz(num(lv)) == w.level + 1)
        if pop.addr not in self.cands:
            raise Unsupported("population of another origin")
        k = toz(num(fld(P, self.t, "current_delegate_index", st))) - 1
        P.ensure(st, "one of the remaining delegates", z3.And(k >= self.index, k < self.D))
        P.ensure(st, "grown from that delegate", self.cands[pop.addr] == self.dele.ety(k))
        P.ensure(st, "which is not redundant", z3.Not(self.red(st, k)))
        P.ensure(st, "no more than configured per request, nor more live ones than allowed", self.may())
        P.ensure(st, "one registration at a time", g.get(st, "registered") + g.get(st, "finished") == 0)
        for nm, old, f in (("created_sprouts_states", self.C, self.CR), ("next_lvl_sprouts_states", self.K, self.KN)):
            q = P.seq(fld(P, self.t, nm, st), st)
            P.ensure(st, nm + ": one more", toz(q.n) == old + 1)
            P.ensure(st, nm + ": the others stay", forall(old, lambda j: q.get(j).term == f(toz(j))))
            n = q.get(old)
            P.ensure(st, nm + ": the new one is a live node of the next level", z3.And(toz(num(fld(P, n, "level", st))) == w.level + 1, toz(fld(P, n, "alive", st)), z3.Not(toz(fld(P, n, "ripe", st)))))
            P.ensure(st, nm + ": with its size", toz(num(fld(P, n, "population_len", st))) == self.pick(self.size))
        g.set(st, "registered", g.get(st, "registered") + 1)
        g.set(st, "delegate", k)

    def finish(self, st, op, dat):
        P, w, g = self.P, self.w, self.g
        P.ensure(st, "answered with the end of sprouting", op is w.op("RELEASE_SPROUTS_END"))
        mine, made = P.eng.seq_of(dat, st).items()
        w.state_of(st, mine, centre=False)
        own = self.states.get(str(mine.term))
        P.ensure(st, "of its own population", own is not None and own.addr == fld(P, w.node, "population", st).addr)
        q = P.seq(made, st)
        P.ensure(st, "all created sprouts are reported", z3.And(toz(q.n) == self.C, forall(self.C, lambda j: q.get(j).term == self.CR(toz(j)))))
        P.ensure(st, "answered once", g.get(st, "registered") + g.get(st, "finished") == 0)
        g.set(st, "finished", g.get(st, "finished") + 1)

    def search(self, pre=None):
        """contract of the search for the next sprout: the first remaining delegate that is not redundant is registered, or the request is answered"""
        def h(e, st, a, kw, node):
            P, g, t = self.P, self.g, self.t
            k0 = toz(num(fld(P, t, "current_delegate_index", st)))
            rel, liv = [toz(num(fld(P, t, x, st))) for x in ("released_sprouts", "alive_sprouts_count")]
            may = z3.And(rel < self.sprt, liv < self.maxs)
            P.ensure(st, "nothing sent before searching on", g.get(st, "registered") + g.get(st, "finished") == 0)
            P.ensure(st, "the search goes on among the delegates", z3.And(k0 >= 0, k0 <= self.D))
            if pre:
                P.ensure(st, "searched only where there is a delegate", pre(k0))
            g.set(st, "searched", g.get(st, "searched") + 1)
            s1, s2 = st, st.copy()
            k = e.fresh_int("next")
            s1.assume(z3.And(may, k0 <= k, k < self.D, z3.Not(self.red(s1, k)), forall(self.D, lambda j: Implies(z3.And(k0 <= j, j < k), self.red(s1, j)))))
            e.setattr(s1, t, "current_delegate_index", k + 1)
            g.set(s1, "registered", z3.IntVal(1))
            g.set(s1, "delegate", k)
            s2.assume(z3.Or(z3.Not(may), forall(self.D, lambda j: Implies(k0 <= j, self.red(s2, j)))))
            g.set(s2, "finished", z3.IntVal(1))
            return [(s1, None), (s2, None)]
        return h

    def searched(self, s, may=None, k0=None):
        """the search has been done from delegate k0 on"""
        P, g = self.P, self.g
        k0 = self.index if k0 is None else k0
        may = self.may() if may is None else may
        reg, fin, d = [g.get(s, x) for x in ("registered", "finished", "delegate")]
        P.ensure(s, "one sprout is registered or the request is answered", reg + fin == 1)
        P.ensure(s, "a sprout only while fewer than configured were released and fewer than allowed live", Implies(reg == 1, may))
        P.ensure(s, "the first delegate that is not redundant", Implies(reg == 1, z3.And(d >= k0, d < self.D, z3.Not(self.red(s, d)), forall(self.D, lambda j: Implies(z3.And(k0 <= j, j < d), self.red(s, j))))))
        P.ensure(s, "answered only when no further sprout may or can be released", Implies(fin == 1, z3.Or(z3.Not(may), forall(self.D, lambda j: Implies(k0 <= j, self.red(s, j))))))


RT = N + "ReleaseSproutsNodeTask."


@proof("C18", "node, sprouting: the next sprout is the first delegate that is not redundant, within the limits", RT + "release_next_sprout")
def rel_next(P):
    r = Rel(P)
    P.assume(z3.And(r.index < r.D, r.w.level < r.maxl))
    P.eng.contracts[RT + "try_relase_next_sprout"] = r.search()
    for s, v in P.call(P.method(r.t, "release_next_sprout"), [r.t]):
        r.searched(s)


@proof("C18", "node, sprouting: the search ends when every delegate has been looked at", RT + "try_relase_next_sprout")
def rel_try(P):
    r = Rel(P)
    P.eng.contracts[RT + "release_next_sprout"] = r.search(lambda k: k < r.D)
    for s, v in P.call(P.method(r.t, "try_relase_next_sprout"), [r.t]):
        r.searched(s)


@proof("C18", "node, sprouting: a registered sprout is kept and counted before the search goes on", RT + "new_sprout_released")
def rel_new(P):
    r = Rel(P)
    P.eng.contracts[RT + "try_relase_next_sprout"] = r.search()
    P.eng.contracts[RT + "release_next_sprout"] = r.search(lambda k: k < r.D)
    new = SymObj(ADDR, P.int("new"))
    msg = P.obj(M + "HgsMessage", dict(operation=r.w.hop("REGISTER_NODE_END"), id=r.w.tid, data=new))
    for s, v in P.call(P.method(r.t, "new_sprout_released"), [r.t, msg, r.w.boss]):
        r.searched(s, z3.And(r.released + 1 < r.sprt, r.live + 1 < r.maxs))
        P.ensure(s, "one more released", toz(num(fld(P, r.t, "released_sprouts", s))) == r.released + 1)
        P.ensure(s, "one more alive", toz(num(fld(P, r.t, "alive_sprouts_count", s))) == r.live + 1)
        q = P.seq(fld(P, r.w.node, "sprouts", s), s)
        P.ensure(s, "the node has the new sprout after its others", z3.And(toz(q.n) == r.S + 1, q.get(r.S).term == new.term, forall(r.S, lambda j: q.get(j).term == r.SP(toz(j)))))


@proof("C18", "node, sprouting: begun when a deeper level, a place and a delegate exist, answered otherwise", RT + "start_sprouting")
def rel_start(P):
    r = Rel(P, index=z3.IntVal(0), released=z3.IntVal(0))
    P.assume(r.sprt >= 0)
    P.eng.contracts[RT + "try_relase_next_sprout"] = r.search()
    P.eng.contracts[RT + "release_next_sprout"] = r.search(lambda k: k < r.D)
    for s, v in P.call(P.method(r.t, "start_sprouting"), [r.t]):
        r.searched(s, z3.And(r.w.level < r.maxl, r.may()))


def begun(r, P):
    """contract of start_sprouting: the count of live sprouts it is to start with"""
    def h(e, st, a, kw, node):
        r.g.set(st, "searched", r.g.get(st, "searched") + 1)
        r.g.set(st, "live", toz(num(fld(P, r.t, "alive_sprouts_count", st))))
        return [(st, None)]
    P.eng.contracts[RT + "start_sprouting"] = h


@proof("C18", "node, sprouting: live sprouts are counted and the search starts once each sprout has answered", RT + "receive_sprout_state")
def rel_state(P):
    r = Rel(P)
    begun(r, P)
    alive = P.bool("sprout_alive")
    checked = toz(num(fld(P, r.t, "sprouts_checked", P.st)))
    P.assume(z3.And(checked >= 0, checked < r.S))
    st_ = P.obj(N + "NodeState", dict(address=r.w.boss, level=r.w.level + 1, alive=alive, ripe=P.bool("sprout_ripe"), center=None, population_len=0))
    msg = P.obj(M + "NodeMessage", dict(operation=r.w.op("CHECK_STATUS"), id=r.w.tid, data=st_))
    for s, v in P.call(P.method(r.t, "receive_sprout_state"), [r.t, msg, r.w.boss]):
        P.ensure(s, "live sprouts are counted", toz(num(fld(P, r.t, "alive_sprouts_count", s))) == r.live + z3.If(alive, 1, 0))
        P.ensure(s, "answers are counted", toz(num(fld(P, r.t, "sprouts_checked", s))) == checked + 1)
        P.ensure(s, "the search starts exactly when every sprout has answered", r.g.get(s, "searched") == z3.If(checked + 1 == r.S, 1, 0))
        P.ensure(s, "nothing is sent before", z3.And(r.g.get(s, "registered") == 0, r.g.get(s, "finished") == 0))


@proof("C18", "node, sprouting: a ripe node asks each sprout once; without sprouts it starts at once; an unripe one answers at once", RT + "receive_sprouting_request")
def rel_request(P):
    r = Rel(P, index=z3.IntVal(0), released=z3.IntVal(0), live=z3.IntVal(0))
    w, g = r.w, r.g
    for a in ("sender", "sender_task_id", "next_lvl_sprouts_states"):
        P.eng.setattr(P.st, r.t, a, None)
    begun(r, P)
    new = P.lst(Seq(P.int("NEW", 0), lambda i: SymObj(r.ST, r.KN(toz(i)))))

    def request(st, target, op, mid, dat):
        a = g.get(st, "asked")
        P.ensure(st, "asked for its state", op is w.op("CHECK_STATUS"))
        P.ensure(st, "under the id of this task", mid.term == w.tid.term)
        P.ensure(st, "each sprout in turn", z3.And(a < r.S, target.term == r.SP(a)))
        g.set(st, "asked", a + 1)
    w.request = request

    def cands(eng, st):
        return [lambda s, k: g.get(s, "asked") == k, lambda s, k: z3.And(g.get(s, "finished") == 0, g.get(s, "searched") == 0, g.get(s, "registered") == 0)]
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, v in P.call(P.method(r.t, "receive_sprouting_request"), [r.t, w.ask("RELEASE_SPROUTS", new), w.asker]):
        ripe = w.ripe
        P.ensure(s, "a ripe node asks every sprout", Implies(ripe, g.get(s, "asked") == r.S))
        P.ensure(s, "an unripe one none", Implies(z3.Not(ripe), g.get(s, "asked") == 0))
        P.ensure(s, "an unripe node answers at once, and only an unripe one", g.get(s, "finished") == z3.If(ripe, 0, 1))
        P.ensure(s, "without sprouts the search starts at once", g.get(s, "searched") == z3.If(z3.And(ripe, r.S == 0), 1, 0))
        q = P.seq(fld(P, r.t, "next_lvl_sprouts_states", s), s)
        P.ensure(s, "the known states are those of the request", z3.And(toz(q.n) == z3.Int("NEW"), forall(z3.Int("NEW"), lambda j: q.get(j).term == r.KN(toz(j)))))
        P.ensure(s, "the answer will go to the asker", z3.And(fld(P, r.t, "sender", s).term == w.asker.term, fld(P, r.t, "sender_task_id", s).term == w.askid.term))


# ------------------------------------------------------------------ the supervisor's remaining tasks
class Infos:
    """states reported by any number of nodes; the messages that kill nodes are counted per node"""

    def __init__(self, P):
        self.P = P
        e = P.eng
        B, Rl = z3.BoolSort(), z3.RealSort()
        self.ST = ClassVal("report", None, [], {}, None)
        F = P.fn1
        self.ALIVE, self.RIPE, self.LEVEL, self.CENTER = F("ALIVE", I, B), F("RIPE", I, B), F("LEVEL", I, I), F("CENTER", I, Vec)
        put = lambda a, f: P.st.heap.__setitem__(("F", "report", a), FMap(f))
        put("alive", lambda t: self.ALIVE(t))
        put("ripe", lambda t: self.RIPE(t))
        put("level", lambda t: self.LEVEL(t))
        put("center", lambda t: Seq.ofvec(self.CENTER(t)))
        put("node", lambda t: SymObj(ADDR, t))
        P.st.heap[("F", "address", "killed")] = FMap(lambda t: z3.IntVal(0))
        self.dist = [P.real("dist%d" % i) for i in range(3)]

        def red(e, st, args, kw, node):
            a, b = [e.seq_of(x, st) for x in args[:2]]
            if not (a.is_lit and b.is_lit and a.n == 1 and b.n == 1):
                raise Unsupported("redundancy of larger sets")
            return [(st, REDV(SEQV(e.seq_of(a.get(0), st)), SEQV(e.seq_of(b.get(0), st)), R(args[2])))]
        e.contracts[TL + "redundant"] = red

    def f(self, s, t, a):
        return fld(self.P, SymObj(self.ST, toz(t)), a, s)

    def killed(self, s, t):
        return toz(fld(self.P, SymObj(ADDR, toz(t)), "killed", s))


@proof("C18", "redundancy pruning: exactly the live nodes near a ripe dead one or an earlier live one are killed, once", T + "TrimRedundantHgsTask.trim_redundant")
def red_level(P):
    w, v = Sup(P), Infos(P)
    n, lv = P.int("n", 0), P.int("lv", 0, 2)
    t = w.task("TrimRedundantHgsTask")
    w.conf(min_dists=P.lst(Seq.lit(v.dist)))
    i = z3.Int("i!l")
    P.fact(z3.ForAll([i], Implies(z3.And(0 <= i, i < n), v.LEVEL(i) == lv), patterns=[v.LEVEL(i)]))
    infos = P.lst(Seq(n, lambda i: SymObj(v.ST, toz(i))))
    d = z3.If(lv == 0, v.dist[0], z3.If(lv == 1, v.dist[1], v.dist[2]))
    near = lambda o, t: z3.And(REDV(v.CENTER(o), v.CENTER(t), d), z3.If(v.ALIVE(o), o < t, v.RIPE(o)))
    kill = lambda t: z3.And(v.ALIVE(t), exists(n, lambda o: near(toz(o), t)))

    def send(e, st, args, kw, node):
        target, msg = args[1], args[2]
        P.ensure(st, "only kills are sent", fld(P, msg, "operation", st) is w.op("KILL"))
        e.setattr(st, target, "killed", v.killed(st, target.term) + 1)
        return [(st, None)]
    P.eng.contracts[A + "TaskActor.send"] = send

    def want(s, t, on):
        return z3.If(z3.And(on, kill(t)), z3.And(v.killed(s, t) == 1, toz(v.f(s, t, "alive")) == False), z3.And(v.killed(s, t) == 0, toz(v.f(s, t, "alive")) == v.ALIVE(t)))

    def visited_of(sq, k, t):
        if sq is not None and sq.kind == "filter":
            return sq.parts[3][1](toz(t)) < toz(k)
        return toz(t) < toz(k)
    P.loops = []

    def cands(eng, st):
        sq = eng.loop_seq
        P.loops.append(sq)
        out = []
        if sq.kind == "filter":
            out.append(lambda s, k: forall(n, lambda t: want(s, t, visited_of(sq, k, t))))
        for nm, x in st.frames[st.cur].items():
            if isinstance(x, ListRef) and sq.kind == "filter" and P.seq(x, st).is_lit and P.seq(x, st).n == 0:
                def coll(s, k, x=x):
                    q = P.seq(x, s)
                    return z3.And(toz(q.n) == k, forall(k, lambda j: q.get(j).term == sq.get(j).term))
                out.append(coll)
            if isinstance(x, SymObj):
                def seen(s, k, x=x):
                    return z3.And(toz(v.f(s, x.term, "alive")) == z3.Not(exists(k, lambda j: near(sq.get(j).term, x.term))), v.killed(s, x.term) == z3.If(toz(v.f(s, x.term, "alive")), 0, 1))
                out.append(seen)
                out.append(lambda s, k, x=x: forall(n, lambda t: z3.Or(toz(t) == x.term, z3.And(toz(v.f(s, t, "alive")) == toz(v.f(st, t, "alive")), v.killed(s, t) == v.killed(st, t)))))
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, r in P.call(P.method(t, "trim_redundant"), [t, infos]):
        for sq in P.loops[:1]:
            P.have(s, "every live node is looked at", forall(n, lambda t: Implies(v.ALIVE(t), visited_of(sq, sq.n, t))))
        P.ensure(s, "exactly the redundant live nodes are killed, each once", forall(n, lambda t: want(s, t, z3.BoolVal(True))))


@proof("C18", "redundancy pruning: once every node has reported, each level is pruned once, with exactly the states of that level", T + "TrimRedundantHgsTask.receive_trim_confirmation")
def red_end(P):
    w, v = Sup(P), Infos(P)
    e, g = P.eng, Ghost(P, l0=z3.IntVal(0), l1=z3.IntVal(0), l2=z3.IntVal(0))
    n, K, who = P.int("n", 1), P.int("K", 0), P.int("who", 0)
    P.assume(K < n)
    i = z3.Int("i!v")
    P.fact(z3.ForAll([i], z3.And(v.LEVEL(i) >= 0, v.LEVEL(i) <= 2), patterns=[v.LEVEL(i)]))
    w.final = lambda st, op, dat: P.ensure(st, "answered with the end of pruning", op is w.hop("TRIM_REDUNDANT_END"))
    t = w.task("TrimRedundantHgsTask", sender=w.boss, sender_task_id=w.bossid, requests_count=n, trim_infos=P.lst(Seq(K, lambda i: SymObj(v.ST, toz(i)))))
    lev = lambda x: toz(num(v.f(P.st, x.term, "level")))
    groups = {}
    nameof = lambda f: f.parts[3][0](z3.IntVal(0)).decl().name()

    def groupby(e, st, a, kw, node):
        """contract of itertools.groupby on a list sorted by its key, keys being 0, 1 or 2 (the order is an obligation)"""
        q, key = e.seq_of(a[0], st), kw.get("key", a[1] if len(a) > 1 else None)
        if q.kind != "perm":
            raise Unsupported("groups of another list")
        ks = lambda x: toz(num(P.call(key, [x], st=st)[0][1])) if key is not None else x
        kf = lambda j: ks(q.get(j))
        i, j = bvar(), bvar()
        P.ensure(st, "groups of a sorted list: the levels descend", z3.ForAll([i, j], Implies(z3.And(0 <= i, i < j, j < toz(q.n)), kf(i) >= kf(j))))
        outs = []
        from pydv.loops import mk_filter
        for pres in range(8):
            s = st.copy()
            items = []
            for l in (2, 1, 0):
                # whether the level occurs, said of the list before sorting (the same states)
                if pres >> l & 1:
                    a0 = e.fresh_int("some")
                    s.assume(z3.And(a0 >= 0, a0 < toz(q.n), ks(q.parts[0].get(a0)) == l))
                    f = mk_filter(e, s, q.n, lambda j, l=l: kf(toz(j)) == l, lambda j: q.get(toz(j)))
                    groups[nameof(f)] = (l, f, q)
                    items.append(Seq.lit([z3.IntVal(l), f]))
                else:
                    s.assume(forall(q.n, lambda j: ks(q.parts[0].get(toz(j))) != l))
            outs.append((s, Seq.lit(items)))
        return [(s, x) for s, x in outs if not s.dead()]
    e.contracts["lib:itertools.groupby"] = groupby

    def prune(e, st, a, kw, node):
        q = P.seq(a[1], st)
        if q.kind != "filter" or nameof(q) not in groups:
            raise Unsupported("group of another origin")
        l, f, sq = groups[nameof(q)]
        F, Rk = q.parts[3]
        Pm, Qm = sq.parts[1:]
        P.ensure(st, "only states of one level", forall(q.n, lambda j: v.LEVEL(q.get(j).term) == l))
        mine = lambda a_: z3.If(a_ == K, who, a_)
        P.ensure(st, "all states of that level", forall(K + 1, lambda a_: Implies(v.LEVEL(mine(toz(a_))) == l, z3.And(Rk(Qm(toz(a_))) >= 0, Rk(Qm(toz(a_))) < toz(q.n), q.get(Rk(Qm(toz(a_)))).term == mine(toz(a_))))))
        g.set(st, "l%d" % l, g.get(st, "l%d" % l) + 1)
        return [(st, None)]
    e.contracts[T + "TrimRedundantHgsTask.trim_redundant"] = prune
    info = SymObj(v.ST, who)
    sender = SymObj(ADDR, P.int("sender", 0))
    P.assume(who >= K)
    msg = P.obj(M + "NodeMessage", dict(operation=w.op("CHECK_STATUS"), id=w.tid, data=info))
    for s, r in P.call(P.method(t, "receive_trim_confirmation"), [t, msg, sender]):
        P.ensure(s, "answered exactly when the last node reports", (w.g.get(s, "done") == 1) == (K + 1 == n))
        P.ensure(s, "the answer is kept with its sender", fld(P, info, "node", s).term == sender.term)
        q = P.seq(fld(P, t, "trim_infos", s), s)
        P.ensure(s, "the reports are counted", toz(q.n) == K + 1)
        for l in range(3):
            some = z3.Or(v.LEVEL(who) == l, exists(K, lambda a_: v.LEVEL(toz(a_)) == l))
            P.ensure(s, "level %d is pruned once when all have reported" % l, g.get(s, "l%d" % l) == z3.If(z3.And(K + 1 == n, some), 1, 0))


RH = T + "ReleaseSproutsHgsTask."


def leaf_of(maxl):
    @proof("C18", "sprouting, %d levels: begins at the deepest level that has nodes" % (maxl + 1), RH + "find_leaf")
    def leaf(P):
        w = Sup(P)
        P.eng.contracts[RH + "find_leaf"] = lambda e, st, a, kw, node: [(st, 2)]
        t = w.task("ReleaseSproutsHgsTask")
        del P.eng.contracts[RH + "find_leaf"]
        w.conf(max_level=maxl)
        P.assume(w.cnt[0] > 0)
        for l in range(maxl + 1, 3):
            P.assume(w.cnt[l] == 0)
        for s, v in P.call(P.method(t, "find_leaf"), [t]):
            if isinstance(v, Opt):
                P.have(s, "a level is found", z3.Not(toz(v.none)))
                v = v.val
            elif v is None:
                P.ensure(s, "a level is found", False)
                continue
            P.ensure(s, "the deepest level with nodes", toz(num(v)) == z3.If(w.cnt[2] > 0, 2, z3.If(w.cnt[1] > 0, 1, 0)))


for m_ in range(3):
    leaf_of(m_)


STC = ClassVal("state", None, [], {}, None)


def sprout_step(l):
    @proof("C18", "sprouting, level %d: nodes are asked one after another, deepest level first, with the states of the level below" % l, RH + "receive_release_confirmation, send_next_request")
    def pr(P):
        w = Sup(P, "RELEASE_SPROUTS")
        P.eng.contracts[RH + "find_leaf"] = lambda e, st, a, kw, node: [(st, 2)]
        a, b, c, m, ix = P.int("BELOW", 0), P.int("SAME", 0), P.int("ALL", 0), P.int("MADE", 0), P.int("ix", 0)
        f = [P.fn1(x, I, I) for x in ("BELOW_ST", "SAME_ST", "ALL_ST", "MADE_ST")]
        ls = lambda n, fn: P.lst(Seq(n, lambda i: SymObj(STC, fn(toz(i)))))
        below, same, every, made = ls(a, f[0]), ls(b, f[1]), ls(c, f[2]), ls(m, f[3])
        for k in range(l + 1):
            P.assume(w.cnt[k] > 0)
        P.assume(ix < w.cnt[l])
        new = P.int("new")
        t = w.task("ReleaseSproutsHgsTask", sender=w.boss, sender_task_id=w.bossid, current_lvl=l, lvl_index=ix, current_lvl_states=same, next_lvl_states=below)
        P.eng.setattr(P.st, w.sup, "node_states", every)
        last = ix + 1 == w.cnt[l]

        def is_(q, *parts):
            """the sequence is that of the given parts one after another"""
            off, out = z3.IntVal(0), []
            if q.is_lit and q.n == 0:
                return z3.And(True, *[n == 0 for n, _ in parts])
            for n, fn in parts:
                out.append(forall(n, lambda j, off=off, fn=fn: q.get(off + j).term == fn(toz(j))))
                off = off + n
            return z3.And(toz(q.n) == off, *out)
        one = (z3.IntVal(1), lambda j: new)

        def data(st, target, dat):
            q = P.seq(dat, st)
            nxt = w.off[l] + ix + 1
            return z3.And(target == z3.If(last, w.off[l - 1] if l else z3.IntVal(-5), nxt), Implies(z3.Not(last), is_(q, (a, f[0]), (m, f[3]))), Implies(last, is_(q, (b, f[1]), one)))
        w.data = data
        w.final = lambda st, op, dat: P.ensure(st, "answered with the end of sprouting", op is w.hop("RELEASE_SPROUTS_END"))
        msg = P.obj(M + "NodeMessage", dict(operation=w.op("RELEASE_SPROUTS_END"), id=w.tid, data=P.eng.tuple_of([SymObj(STC, new), made]) if hasattr(P.eng, "tuple_of") else Seq.lit([SymObj(STC, new), made])))
        for s, v in P.call(P.method(t, "receive_release_confirmation"), [t, msg, SymObj(ADDR, w.off[l] + ix)]):
            P.ensure(s, "the next node is asked, or the request is answered after the root", z3.And(w.g.get(s, "requests") == (z3.If(last, 0, 1) if l == 0 else 1), w.g.get(s, "done") == (z3.If(last, 1, 0) if l == 0 else 0)))
            P.ensure(s, "the supervisor knows every state", is_(P.seq(fld(P, w.sup, "node_states", s), s), (c, f[2]), one, (m, f[3])))
            ql, qi = toz(num(fld(P, t, "current_lvl", s))), toz(num(fld(P, t, "lvl_index", s)))
            P.ensure(s, "level by level", z3.And(ql == z3.If(last, l - 1, l), qi == z3.If(last, 0, ix + 1)))
            P.ensure(s, "the states of this level so far", Implies(z3.Not(last), is_(P.seq(fld(P, t, "current_lvl_states", s), s), (b, f[1]), one)))
            P.ensure(s, "begun anew for the next level", Implies(last, is_(P.seq(fld(P, t, "current_lvl_states", s), s))))


for l_ in (2, 1, 0):
    sprout_step(l_)


@proof("C18", "sprouting: the first request goes to the first node of the deepest level, with no states", RH + "send_first_request, send_next_request")
def sprout_first(P):
    w = Sup(P, "RELEASE_SPROUTS")
    lf = P.int("leaf", 0, 2)
    P.assume(z3.If(lf == 0, w.cnt[0], z3.If(lf == 1, w.cnt[1], w.cnt[2])) > 0)
    P.eng.contracts[RH + "find_leaf"] = lambda e, st, a, kw, node: [(st, lf)]
    t = w.task("ReleaseSproutsHgsTask")
    w.data = lambda st, target, dat: z3.And(target == w.lo(lf), toz(P.seq(dat, st).n) == 0)
    for s, v in P.call(P.method(t, "send_first_request"), [t, w.ask("RELEASE_SPROUTS"), w.boss]):
        P.ensure(s, "one request, no answer yet", z3.And(w.g.get(s, "requests") == 1, w.g.get(s, "done") == 0))
        P.ensure(s, "the answer will go to the asker", z3.And(fld(P, t, "sender", s).term == w.boss.term, fld(P, t, "sender_task_id", s).term == w.bossid.term))


@proof("C18", "revival: only when no node is alive, exactly the ripe ones are asked, thresholds halved; otherwise answered at once", T + "ReviveHgsTask.send_revive_request")
def rev(P):
    w = Sup(P, "REVIVE")
    n = w.N
    ALIVE, RIPE = P.fn1("ALIVE", I, z3.BoolSort()), P.fn1("RIPE", I, z3.BoolSort())
    for a, F in (("alive", lambda t: ALIVE(t)), ("ripe", lambda t: RIPE(t)), ("address", lambda t: SymObj(ADDR, t))):
        P.st.heap[("F", "state", a)] = FMap(F)
    t = w.task("ReviveHgsTask")
    ratio = [P.real("ratio%d" % i) for i in range(3)]
    w.conf(max_level=2, min_progress_ratio=P.lst(Seq.lit(ratio)))
    P.eng.setattr(P.st, w.sup, "node_states", P.lst(Seq(n, lambda i: SymObj(STC, toz(i)))))
    any_ = exists(n, lambda j: ALIVE(toz(j)))
    none_ripe = forall(n, lambda j: z3.Not(RIPE(toz(j))))

    def visited_of(sq, k, t):
        if sq is not None and sq.kind == "filter":
            return sq.parts[3][1](toz(t)) < toz(k)
        return toz(t) < toz(k)
    P.loops = []
    asked = lambda s, j: fld(P, SymObj(ADDR, toz(j)), "asked", s)

    def cands(eng, st):
        sq = eng.loop_seq
        P.loops.append(sq)
        return [lambda s, k: forall(n, lambda j: asked(s, j) == z3.If(z3.And(RIPE(toz(j)), visited_of(sq, k, j)), 1, 0)), lambda s, k: w.g.get(s, "done") == w.g.get(st, "done")]
    P.eng.loop_inv = cands
    w.final = lambda st, op, dat: P.ensure(st, "answered with the end of the revival", op is w.hop("REVIVE_END"))
    for s, v in P.call(P.method(t, "send_revive_request"), [t, w.ask("REVIVE"), w.boss]):
        for sq in P.loops[:1]:
            P.have(s, "every ripe node is looked at", Implies(z3.Not(any_), forall(n, lambda j: Implies(RIPE(toz(j)), visited_of(sq, sq.n, j)))))
        P.ensure(s, "exactly the ripe nodes, when none is alive", forall(n, lambda j: asked(s, j) == z3.If(z3.And(z3.Not(any_), RIPE(toz(j))), 1, 0)))
        P.ensure(s, "answered at once exactly when nobody is asked", (w.g.get(s, "done") == 1) == z3.Or(any_, none_ripe))
        now = P.seq(fld(P, fld(P, w.sup, "config", s), "min_progress_ratio", s), s)
        for i in range(3):
            P.ensure(s, "threshold of level %d" % i, R(now.get(i)) == z3.If(any_, ratio[i], ratio[i] / 2))
        cnt = toz(num(fld(P, t, "ripe_nodes_count", s)))
        if P.loops:
            P.ensure(s, "as many answers are awaited", Implies(z3.Not(any_), cnt == SUM(P, n, lambda j: z3.If(RIPE(toz(j)), 1, 0))))


@proof("C18", "supervisor: a registered sprout joins all nodes and those of its level, and its parent is told", A + "HgsNodeSupervisor.receiveMessage, create_node")
def register(P):
    w = Sup(P)
    e = P.eng
    lv = P.int("level", 1, 2)
    pop = P.lst(P.vecs("POP", P.int("NP", 0)))
    new, parent = z3.Int("newnode"), z3.Int("parent")
    P.assume(z3.And(new >= w.N, parent >= 0, parent < w.N))
    w.task("MetaepochHgsTask")
    sup = w.sup
    w.conf(max_level=2)
    cache = P.bool("cached")
    P.eng.setattr(P.st, sup, "actors_cache", P.lst(Seq.lit([SymObj(ADDR, new)])))
    g = Ghost(P, hello=z3.IntVal(0), reset=z3.IntVal(0), told=z3.IntVal(0))
    mid = SymObj(UUID, P.int("mid"))

    def send(e, st, args, kw, node):
        target, msg = args[1], args[2]
        op, m, dat = [fld(P, msg, a, st) for a in ("operation", "id", "data")]
        if op is w.hop("HELLO"):
            P.ensure(st, "greets the new node", target.term == new)
            g.set(st, "hello", g.get(st, "hello") + 1)
        elif op is w.op("RESET"):
            P.ensure(st, "sets up the new node after greeting it", z3.And(target.term == new, g.get(st, "hello") == 1))
            P.ensure(st, "for its level", toz(num(fld(P, dat, "level", st))) == lv)
            P.ensure(st, "with its population", fld(P, dat, "population", st).addr == pop.addr)
            g.set(st, "reset", g.get(st, "reset") + 1)
        else:
            P.ensure(st, "the parent is told", z3.And(op is w.hop("REGISTER_NODE_END"), target.term == parent))
            P.ensure(st, "under the id of its request", m.term == mid.term)
            P.ensure(st, "which node it is", dat.term == new)
            P.ensure(st, "after it is set up", z3.And(g.get(st, "hello") == 1, g.get(st, "reset") == 1))
            g.set(st, "told", g.get(st, "told") + 1)
        return [(st, None)]
    e.contracts[A + "TaskActor.send"] = send
    msg = P.obj(M + "HgsMessage", dict(operation=w.hop("REGISTER_NODE"), id=mid, data=Seq.lit([lv, pop])))
    for s, v in P.call(P.method(sup, "receiveMessage"), [sup, msg, SymObj(ADDR, parent)]):
        P.ensure(s, "the parent is told once", g.get(s, "told") == 1)
        q = P.seq(fld(P, sup, "nodes", s), s)
        P.ensure(s, "one of the nodes", z3.And(toz(q.n) == w.N + 1, q.get(w.N).term == new, forall(w.N, lambda j: q.get(j).term == w.ORD(toz(j)))))
        d = fld(P, sup, "level_nodes", s)
        for l in range(3):
            q = P.seq(dget(P, s, d, l), s)
            P.ensure(s, "level %d" % l, z3.And(toz(q.n) == w.cnt[l] + z3.If(lv == l, 1, 0), forall(w.cnt[l], lambda j: q.get(j).term == w.off[l] + toz(j)), Implies(lv == l, q.get(w.cnt[l]).term == new) if l else True))


def dispatch(who, cls, kind):
    @proof("C18", "%s: an answer goes to the task that asked" % who, A + cls + ".receiveMessage")
    def pr(P):
        w = Sup(P)
        w.task("MetaepochHgsTask")
        g = Ghost(P, ran=z3.IntVal(0))
        mid = SymObj(UUID, P.int("mid"))
        msg = P.obj(M + kind, dict(operation=w.op("METAEPOCH_END") if kind == "NodeMessage" else w.hop("REGISTER_NODE_END"), id=mid, data=None))
        sender = SymObj(ADDR, P.int("sender"))

        def task(k):
            if not isinstance(k, SymObj):
                raise Unsupported("task id of another form")

            def execute(s, args):
                P.ensure(s, "the task whose id the answer carries", k.term == mid.term)
                P.ensure(s, "with the message and its sender", len(args) == 2 and getattr(args[0], "addr", None) == msg.addr and args[1] is sender)
                g.set(s, "ran", g.get(s, "ran") + 1)
                return None
            return SpecObj({"execute": METHOD(execute)}, "task")
        tasks = DictRef(P.eng.alloc(P.st, HeapDict((), None, dict(get=task, has=lambda k: True))))
        if cls == "HgsNodeSupervisor":
            o = w.sup
            P.eng.setattr(P.st, o, "tasks", tasks)
        else:
            o = P.obj(A + "Node", dict(tasks=tasks, level=0))
        for s, v in P.call(P.method(o, "receiveMessage"), [o, msg, sender]):
            P.ensure(s, "one task handles it", g.get(s, "ran") == 1)


dispatch("supervisor", "HgsNodeSupervisor", "NodeMessage")
dispatch("node", "Node", "HgsMessage")
dispatch("node, sprout's answer", "Node", "NodeMessage")


STEPS = [("supervisor", "HgsNodeSupervisor", T, "HgsMessage", [
    ("NEW_METAEPOCH", "MetaepochHgsTask.start_metaepoch", [("METAEPOCH_END", "MetaepochHgsTask.finish_metaepoch")]),
    ("TRIM_NOT_PROGRESSING", "TrimNotProgressingHgsTask.send_trim_request", [("TRIM_NOT_PROGRESSING_END", "TrimNotProgressingHgsTask.receive_trim_confirmation")]),
    ("TRIM_REDUNDANT", "TrimRedundantHgsTask.send_trim_request", [("CHECK_STATUS", "TrimRedundantHgsTask.receive_trim_confirmation")]),
    ("CHECK_STATUS", "StatusHgsTask.send_check", [("CHECK_STATUS", "StatusHgsTask.finish_check")]),
    ("POPULATION", "PopulationHgsTask.get_nodes_populations", [("POPULATION", "PopulationHgsTask.receive_population")]),
    ("RELEASE_SPROUTS", "ReleaseSproutsHgsTask.send_first_request", [("RELEASE_SPROUTS_END", "ReleaseSproutsHgsTask.receive_release_confirmation")]),
    ("REVIVE", "ReviveHgsTask.send_revive_request", [("REVIVE", "ReviveHgsTask.receive_revive_confirmation")])]),
    ("node", "Node", N, "NodeMessage", [
        ("CHECK_STATUS", "CheckStatusNodeTask.send_status", []), ("POPULATION", "GetPopulationNodeTask.send_population", []),
        ("NEW_METAEPOCH", "NewMetaepochNodeTask.stream_metaepoch_results", []), ("TRIM_NOT_PROGRESSING", "TrimNotProgressingNodeTask.trim_not_progressing", []),
        ("RELEASE_SPROUTS", "ReleaseSproutsNodeTask.receive_sprouting_request", [("CHECK_STATUS", "ReleaseSproutsNodeTask.receive_sprout_state"), ("hgs:REGISTER_NODE_END", "ReleaseSproutsNodeTask.new_sprout_released")]),
        ("REVIVE", "ReviveNodeTask.revive", []), ("KILL", "KillNodeTask.kill", [])])]


def routed(who, cls, mod, kind, op, meth, answers):
    @proof("C18", "%s: %s is handled by its task, and so are the answers to it" % (who, op), A + "TaskActor.execute_new_task, " + cls + ".configure_tasks, " + meth.split(".")[0] + ".configure_steps, OperationTask.execute")
    def pr(P):
        e = P.eng
        NO, HO = P.get(M + "NodeOperation"), P.get(M + "HgsOperation")
        opof = lambda n: fld(P, HO, n[4:], P.st) if n.startswith("hgs:") else fld(P, NO, n, P.st)
        e.contracts["lib:uuid.uuid4"] = lambda e, st, a, kw, node: [(st, SymObj(UUID, e.fresh_int("uuid")))]
        e.contracts[A + "TaskActor.log"] = lambda e, st, a, kw, node: [(st, None)]
        e.contracts[RH + "find_leaf"] = lambda e, st, a, kw, node: [(st, 0)]
        actor = P.obj(A + cls, dict(tasks=P.dct([]), level=0))
        P.eng.setattr(P.st, actor, "task_definitions", P.call(P.method(actor, "configure_tasks"), [actor])[0][1])
        g = Ghost(P, ran=z3.IntVal(0))
        want = {}

        def handler(name):
            def h(e, st, a, kw, node):
                P.ensure(st, "handled by " + want["name"], name == want["name"])
                P.ensure(st, "with the message and its sender", len(a) == 3 and getattr(a[1], "addr", None) == want["msg"].addr and a[2] is want["sender"])
                g.set(st, "ran", g.get(st, "ran") + 1)
                return [(st, None)]
            return h
        for w_, c_, m_, k_, lst in STEPS:
            if w_ == who:
                for o_, meth_, ans in lst:
                    for x in [meth_] + [b for _, b in ans]:
                        e.contracts[m_ + x] = handler(x)
        sender = SymObj(ADDR, P.int("sender"))
        mid = SymObj(UUID, P.int("mid"))
        msg = P.obj(M + kind, dict(operation=fld(P, HO, op, P.st) if kind == "HgsMessage" else fld(P, NO, op, P.st), id=mid, data=None))
        want.update(name=meth, msg=msg, sender=sender)
        for s, v in P.call(P.method(actor, "execute_new_task"), [actor, msg, sender]):
            P.ensure(s, "handled once", g.get(s, "ran") == 1)
            h = s.heap[fld(P, actor, "tasks", s).addr]
            P.ensure(s, "the task is kept", len(h.items) == 1)
            (key, task), = h.items
            P.ensure(s, "under its id", key.term == fld(P, task, "id", s).term)
            for n, (ao, am) in enumerate(answers):
                s2 = s.copy()
                back = P.obj(M + ("HgsMessage" if ao.startswith("hgs:") else "NodeMessage"), dict(operation=opof(ao), id=key, data=None), st=s2)
                want.update(name=am, msg=back, sender=sender)
                for s3, v3 in P.call(P.method(task, "execute"), [task, back, sender], st=s2):
                    P.ensure(s3, "an answer is handled once", g.get(s3, "ran") == 2)


for w_, c_, m_, k_, l_ in STEPS:
    for o_, meth_, ans_ in l_:
        routed(w_, c_, m_, k_, o_, meth_, ans_)


@proof("C18", "node: only live nodes run, for the configured number of steps; each message is costed, then remembered", N + "NewMetaepochNodeTask.run_metaepoch, fill_node_info, update_current_cost")
def node_run(P):
    from .c12 import rx_ops
    rx_ops(P)
    e = P.eng
    w = Nd(P)
    length, c0, c1 = P.int("length", 1), P.real("cost_before"), P.real("cost1")
    MSG = ClassVal("Message", None, [], {}, None)
    g = Ghost(P, jobs=z3.IntVal(0), after=z3.IntVal(0))
    drv = SpecObj({"population": w.at(P.st, "population")}, "driver")
    for a, x in (("metaepoch_len", length), ("current_cost", c0), ("driver", drv)):
        P.eng.setattr(P.st, w.node, a, x)

    def steps_run(e, st, a, kw, nd):
        n = a[0] if a else kw.get("steps_number", next(iter(kw.values()), None))
        P.ensure(st, "the configured number of steps", toz(num(n)) == length)

        def job(e, s, args):
            P.ensure(s, "the node's own driver runs", args[0] is drv)
            g.set(s, "jobs", g.get(s, "jobs") + 1)
            return [(s, SpecObj({"pipe": UFun(lambda e, s2, ops: [(s2, SpecObj({"ops": tuple(ops)}, "stream"))], "pipe")}, "job"))]
        return [(st, SpecObj({"create_job": UFun(job, "create_job")}, "run"))]
    e.contracts["algorithms.base.driver:StepsRun"] = steps_run
    e.contracts["lib:rx.empty"] = lambda e, st, a, kw, nd: [(st, SpecObj({"ops": ()}, "empty"))]

    def after(e, st, a, kw, nd):
        g.set(st, "after", g.get(st, "after") + 1)
        return [(st, None)]
    e.contracts[N + "NewMetaepochNodeTask._after_metaepoch"] = after
    t = w.task("NewMetaepochNodeTask")
    for s, v in P.call(P.method(t, "run_metaepoch"), [t]):
        P.ensure(s, "a node runs exactly when it is alive", (g.get(s, "jobs") == 1) == w.alive)
        P.ensure(s, "at most once", g.get(s, "jobs") <= 1)
        if not v.attrs["ops"]:
            P.ensure(s, "a node without messages is dead", z3.Not(w.alive))
            continue
        P.ensure(s, "only a live node reports", w.alive)
        # one message of the driver passes through (contract of rx), then the run completes
        for s2, m in passes(P, s, v.attrs["ops"], P.obj(MSG, dict(cost=c1), st=s)):
            P.ensure(s2, "the message carries the cost since the start of the metaepoch", R(fld(P, m, "epoch_cost", s2)) == c1 - c0)
            P.ensure(s2, "and the level of the node", toz(num(fld(P, m, "level", s2))) == w.level)
            P.ensure(s2, "the cost so far is remembered", R(fld(P, w.node, "current_cost", s2)) == c1)
            P.ensure(s2, "on completion the node takes over the result", g.get(s2, "after") == 1)


def passes(P, s, ops, m, phases=("on_next", "on_completed")):
    """a message passes through the operators of a stream, then the stream completes (contract of rx)"""
    states = [(s, m)]
    for phase in phases:
        for o in ops:
            new = []
            for s2, m in states:
                k, a, kw = o.attrs["op"], o.attrs["args"], o.attrs["kw"]
                if k == "map" and phase == "on_next":
                    new += [(s3, m3) for s3, m3 in P.call(a[0], [m], st=s2)]
                elif k == "do_action":
                    f = kw.get(phase, a[0] if a and phase == "on_next" else (a[2] if len(a) > 2 and phase == "on_completed" else None))
                    new += [(s3, m) for s3, _ in P.call(f, [m] if phase == "on_next" else [], st=s2)] if f is not None else [(s2, m)]
                elif k == "map":
                    new.append((s2, m))
                else:
                    raise Unsupported("operator " + k)
            states = new
    return states


@proof("C18", "node: the end of a metaepoch is reported once, with the last message of the run", N + "NewMetaepochNodeTask.stream_metaepoch_results, update_cost")
def node_stream(P):
    from .c12 import rx_ops
    rx_ops(P)
    e = P.eng
    w = Nd(P)
    RES = ClassVal("result", None, [], {}, None)
    m, started = P.int("messages", 0), Ghost(P, subscribed=z3.IntVal(0))
    MS = P.fn1("MESSAGE", I, I)
    final = {}
    prev = Opt.mk(m < 2, SymObj(RES, MS(m - 2)))

    def stream(e, st, a, kw, nd):
        def pipe(e, s, ops):
            def subscribe(e, s2, args, ops=tuple(ops)):
                """contract of rx: every message in order, then the completion; after the last but one message the task
                holds that message"""
                started.set(s2, "subscribed", started.get(s2, "subscribed") + 1)
                out = []
                s3, s4 = s2, s2.copy()
                s3.assume(m == 0)
                outs = [(s3, None, ("on_completed",))]
                s4.assume(m > 0)
                outs.append((s4, SymObj(RES, MS(m - 1)), ("on_next", "on_completed")))
                for s5, msg, phases in outs:
                    if "on_next" in phases:
                        for s6, m6 in passes(P, s5, ops, msg, ("on_next",)):
                            for s7, _ in P.call(args[0], [m6], st=s6):
                                out += passes(P, s7, ops, None, ("on_completed",))
                    else:
                        out += passes(P, s5, ops, None, ("on_completed",))
                return [(s8, None) for s8, _ in out]
            return [(s, SpecObj({"subscribe": UFun(subscribe, "subscribe")}, "stream"))]
        return [(st, SpecObj({"pipe": UFun(pipe, "pipe")}, "run"))]
    e.contracts[N + "NewMetaepochNodeTask.run_metaepoch"] = stream

    def reply(st, op, dat):
        P.ensure(st, "answered with the end of the metaepoch", op is w.op("METAEPOCH_END"))
        P.ensure(st, "only when the run has begun", started.get(st, "subscribed") == 1)
        if dat is None:
            P.ensure(st, "no message only of a run without messages", m == 0)
        elif isinstance(dat, Opt):
            P.ensure(st, "a message exactly of a run with messages", toz(dat.isnone) == (m == 0))
            P.ensure(st, "the last one", Implies(m > 0, dat.val.term == MS(m - 1)))
        else:
            P.ensure(st, "the last message", z3.And(m > 0, dat.term == MS(m - 1)))
    w.reply = reply
    t = w.task("NewMetaepochNodeTask")
    for s, v in P.call(P.method(t, "stream_metaepoch_results"), [t, w.ask("NEW_METAEPOCH"), w.asker]):
        P.ensure(s, "one answer", w.g.get(s, "sent") == 1)


@proof("C18", "node: after a metaepoch the population, the delegates and both hypervolumes are those of the run", N + "NewMetaepochNodeTask._after_metaepoch, update_dominated_hypervolume")
def node_after(P):
    w = Nd(P)
    e = P.eng
    hv, old, rel, norel, val = P.real("hv"), P.real("oldhv"), P.real("rel"), P.bool("norel"), P.real("measured")
    q = P.vecs("RESULT", P.int("NR", 0), w.dim)
    final = P.lst(q)
    dl = P.lst(P.vecs("DELEGATE", P.int("ND", 0), w.dim))
    drv = SpecObj({"finalized_population": METHOD(lambda s, a: final), "message_adapter": SpecObj({"nominate_delegates": METHOD(lambda s, a: dl)}, "adapter")}, "driver")
    OBJ = [P.fn1("OBJECTIVE%d" % k, Vec, z3.RealSort()) for k in range(2)]
    fs = P.lst(Seq.lit([UFun(lambda e, s, a, f=f: [(s, f(SEQV(e.seq_of(a[0], s))))], "objective") for f in OBJ]))
    ref = Opaque("reference point")
    for a, x in (("driver", drv), ("hypervolume", hv), ("old_hypervolume", old), ("relative_hypervolume", Opt.mk(norel, rel)), ("fitnesses", fs), ("reference_point", ref), ("delegates", P.lst(Seq.lit([])))):
        P.eng.setattr(P.st, w.node, a, x)
    g = Ghost(P, shuffled=z3.IntVal(0))

    def hyper(e, st, a, kw, nd):
        P.ensure(st, "up to the configured reference point", a[0] is ref)

        def compute(s, args):
            fv = P.seq(args[0], s)
            P.ensure(s, "the objectives of every solution of the run", z3.And(toz(fv.n) == toz(q.n), forall(q.n, lambda i: z3.And(toz(e.seq_of(fv.get(i), s).n) == 2, *[R(e.seq_of(fv.get(i), s).get(k)) == OBJ[k](q.ety(toz(i))) for k in range(2)]))))
            return val
        return [(st, SpecObj({"compute": METHOD(compute)}, "hypervolume"))]
    e.contracts["algorithms.base.hv:HyperVolume"] = hyper

    def shuffle(e, st, a, kw, nd):
        P.ensure(st, "the delegates are shuffled", getattr(a[0], "addr", None) == dl.addr)
        g.set(st, "shuffled", g.get(st, "shuffled") + 1)
        return [(st, None)]
    e.contracts["lib:random.shuffle"] = shuffle
    t = w.task("NewMetaepochNodeTask")
    for s, v in P.call(P.method(t, "_after_metaepoch"), [t]):
        pq, dq = P.seq(w.at(s, "population"), s), P.seq(w.at(s, "delegates"), s)
        P.ensure(s, "the population of the run", z3.And(toz(pq.n) == toz(q.n), forall(q.n, lambda i: SEQV(pq.get(i)) == q.ety(toz(i)))))
        P.ensure(s, "as many delegates as nominated", toz(dq.n) == z3.Int("ND"))
        P.ensure(s, "the previous hypervolume is remembered", R(w.at(s, "old_hypervolume")) == hv)
        rv = Opt.of(w.at(s, "relative_hypervolume"))
        P.ensure(s, "the first run sets the origin", z3.And(z3.Not(toz(rv.isnone)), R(rv.val) == z3.If(norel, val, rel)))
        P.ensure(s, "later ones measure from it", R(w.at(s, "hypervolume")) == z3.If(norel, hv, val - rel))


@proof("C18", "node: set up for its level: alive, not ripe, no sprouts, no cost, its own driver", A + "Node.reset")
def reset(P):
    e = P.eng
    lv = P.int("level", 0, 2)
    lit = lambda n: P.lst(Seq.lit([P.real("%s%d" % (n, i)) for i in range(3)]))
    names = ("mutation_etas", "mutation_rates", "crossover_etas", "crossover_rates", "metaepoch_len", "min_dists", "population_sizes", "fitness_errors")
    f = {n: lit(n) for n in names}
    pick = lambda n: z3.If(lv == 0, z3.Real(n + "0"), z3.If(lv == 1, z3.Real(n + "1"), z3.Real(n + "2")))
    pop = P.lst(P.vecs("POP", P.int("NP", 1)))
    factory, blurred, dims, ref = Opaque("factory"), Opaque("objectives of the level"), Opaque("dims"), Opaque("reference point")
    fits = P.lst(Seq.lit([Opaque("f0"), Opaque("f1")]))
    g = Ghost(P, made=z3.IntVal(0))
    made = SpecObj({}, "driver")

    def driver(e, st, a, kw, node):
        P.ensure(st, "starts from the given population", getattr(kw.get("population"), "addr", None) == pop.addr)
        P.ensure(st, "in the bounds of the problem", kw.get("dims") is dims)
        P.ensure(st, "with the objectives of the level", kw.get("fitnesses") is blurred)
        for k in ("mutation_eta", "mutation_rate", "crossover_eta", "crossover_rate"):
            P.ensure(st, "the level's " + k, R(kw[k]) == pick(k + "s"))
        P.ensure(st, "with the adapter of the search", kw.get("message_adapter_factory") is factory)
        g.set(st, "made", g.get(st, "made") + 1)
        return [(st, made)]
    e.contracts["lib:spec.driver"] = driver

    def blur(e, st, a, kw, node):
        P.ensure(st, "blurred for the level", toz(num(a[0])) == lv)
        P.ensure(st, "the objectives of the problem", getattr(a[1], "addr", None) == fits.addr)
        return [(st, blurred)]
    e.contracts[TL + "blurred_fitnesses"] = blur
    maxl, maxs, spr = P.int("max_level"), P.int("max_sprouts"), P.int("sproutiveness")
    f.update(dims=dims, fitnesses=fits, driver=Builtin("spec.driver"), driver_message_adapter_factory=factory, max_level=maxl, max_sprouts_no=maxs, sproutiveness=spr, reference_point=ref,
             mantissa_bits=P.lst(Seq.lit([P.int("bits%d" % i) for i in range(3)])))
    conf = P.obj(A + "HgsConfig", f)
    node = P.obj(A + "Node", dict(level=None))
    nc = P.obj(A + "NodeConfig", dict(hgs_config=conf, level=lv, population=pop))
    for s, v in P.call(P.method(node, "reset"), [node, nc]):
        at = lambda a: fld(P, node, a, s)
        P.ensure(s, "one driver", z3.And(g.get(s, "made") == 1, at("driver") is made))
        P.ensure(s, "alive and not ripe", z3.And(toz(at("alive")), z3.Not(toz(at("ripe")))))
        P.ensure(s, "of its level", toz(num(at("level"))) == lv)
        P.ensure(s, "without cost", R(at("current_cost")) == 0)
        P.ensure(s, "steps per metaepoch of the level", R(at("metaepoch_len")) == pick("metaepoch_len"))
        for a in ("population", "sprouts", "delegates"):
            P.ensure(s, "no %s yet" % a, toz(P.seq(at(a), s).n) == 0)
        P.ensure(s, "limits", z3.And(toz(num(at("max_level"))) == maxl, toz(num(at("max_hgs_sprouts_no"))) == maxs, toz(num(at("sproutiveness"))) == spr))
        for a, b in (("min_dists", "min_dists"), ("hgs_population_sizes", "population_sizes"), ("hgs_mutation_rates", "mutation_rates"), ("hgs_mutation_etas", "mutation_etas")):
            P.ensure(s, a, e.seq_eq(s, P.seq(at(a), s), P.seq(f[b], P.st)))
        P.ensure(s, "in the bounds of the problem", at("hgs_dims") is dims)
        P.ensure(s, "measured from the reference point", at("reference_point") is ref)
        P.ensure(s, "with the objectives of the problem", getattr(at("fitnesses"), "addr", None) == fits.addr)
        P.ensure(s, "no origin of the hypervolume yet", toz(Opt.of(at("relative_hypervolume")).isnone))


@proof("C18", "supervisor: started with one node, the root, grown from a sample of the population", A + "HgsNodeSupervisor.start, create_root_node, create_node")
def sup_start(P):
    w = Sup(P)
    e = P.eng
    w.task("MetaepochHgsTask")
    sup = w.sup
    pop = P.lst(P.vecs("POP", P.int("NP", 1)))
    sizes = [P.int("size%d" % i, 1) for i in range(3)]
    P.assume(sizes[0] <= z3.Int("NP"))
    conf = P.obj(A + "HgsConfig", dict(population=pop, population_sizes=P.lst(Seq.lit(sizes)), max_level=2))
    picked = P.lst(P.vecs("SAMPLE", sizes[0]))
    g = Ghost(P, hello=z3.IntVal(0), reset=z3.IntVal(0), made=z3.IntVal(0))

    def sample(e, st, a, k, node):
        P.ensure(st, "a sample of the population", getattr(a[0], "addr", None) == pop.addr)
        P.ensure(st, "of the size of the first level", toz(num(a[1])) == sizes[0])
        return [(st, picked)]
    e.contracts["lib:random.sample"] = sample

    def create(e, st, a, kw, node):
        k = g.get(st, "made")
        g.set(st, "made", k + 1)
        return [(st, SymObj(ADDR, 1000 + k))]
    e.contracts[A + "TaskActor.createActor"] = e.contracts[A + "HgsNodeSupervisor.createActor"] = create
    P.eng.setattr(P.st, sup, "createActor", UFun(lambda e, s, args: create(e, s, args, {}, None), "createActor"))

    def send(e, st, args, kw, node):
        target, msg = args[1], args[2]
        op, m, dat = [fld(P, msg, a, st) for a in ("operation", "id", "data")]
        if op is w.hop("HELLO"):
            g.set(st, "hello", g.get(st, "hello") + 1)
        else:
            P.ensure(st, "sets up the root after greeting it", z3.And(op is w.op("RESET"), g.get(st, "hello") == 1))
            P.ensure(st, "for level 0", toz(num(fld(P, dat, "level", st))) == 0)
            P.ensure(st, "with the sample", getattr(fld(P, dat, "population", st), "addr", None) == picked.addr)
            P.ensure(st, "and the settings of the search", getattr(fld(P, dat, "hgs_config", st), "addr", None) == conf.addr)
            g.set(st, "reset", g.get(st, "reset") + 1)
            g.target = target.term
        return [(st, None)]
    e.contracts[A + "TaskActor.send"] = send
    for s, v in P.call(P.method(sup, "start"), [sup, conf]):
        P.ensure(s, "one node is set up", z3.And(g.get(s, "hello") == 1, g.get(s, "reset") == 1))
        root = fld(P, sup, "root", s)
        P.ensure(s, "the root", root.term == g.target)
        q = P.seq(fld(P, sup, "nodes", s), s)
        P.ensure(s, "all nodes: the root", z3.And(toz(q.n) == 1, q.get(0).term == root.term))
        for l in range(3):
            q = P.seq(dget(P, s, fld(P, sup, "level_nodes", s), l), s)
            P.ensure(s, "nodes of level %d" % l, z3.And(toz(q.n) == 1, q.get(0).term == root.term) if l == 0 else toz(q.n) == 0)


DH = "algorithms.HGS.distributed.DistributedHGS:"


@proof("C18", "a step asks for a metaepoch, both prunings, sprouting and revival, in this order, and takes over the cost", DH + "DistributedHGS.step")
def dstep(P):
    e = P.eng
    HO = P.get(M + "HgsOperation")
    order = [fld(P, HO, n, P.st) for n in ("NEW_METAEPOCH", "TRIM_NOT_PROGRESSING", "TRIM_REDUNDANT", "RELEASE_SPROUTS", "REVIVE")]
    g = Ghost(P, phase=z3.IntVal(0))
    cost = P.real("cost")
    sup = SymObj(ADDR, P.int("supervisor"))
    e.contracts["lib:uuid.uuid4"] = lambda e, st, a, kw, node: [(st, SymObj(UUID, e.fresh_int("uuid")))]

    def ask(st, a):
        op = fld(P, a[1], "operation", st)
        k = z3.simplify(g.get(st, "phase")).as_long()
        P.ensure(st, "request %d goes to the supervisor" % (k + 1), a[0].term == sup.term)
        P.ensure(st, "request %d in its place" % (k + 1), k < 5 and op is order[k])
        g.set(st, "phase", z3.IntVal(k + 1))
        return SpecObj({"data": cost if k == 0 else None}, "answer")
    system = SpecObj({"ask": METHOD(ask)}, "actors")
    e.contracts["lib:thespian.actors.ActorSystem"] = lambda e, st, a, kw, node: [(st, system)]
    hgs = P.obj(DH + "DistributedHGS", dict(node_supervisor=sup, hgs_system=system, cost=P.real("before")))
    for s, v in P.call(P.method(hgs, "step"), [hgs]):
        P.ensure(s, "all five requests", g.get(s, "phase") == 5)
        P.ensure(s, "the cost is the reported one", R(fld(P, hgs, "cost", s)) == cost)


@proof("C18", "a new distributed search hands its settings over as given; its thresholds are its own", DH + "DistributedHGS.__init__")
def dnew(P):
    from .c12 import search_args, kept
    e = P.eng
    kw, corner = search_args(P)
    HO = P.get(M + "HgsOperation")
    g = Ghost(P, started=z3.IntVal(0))
    got = {}
    e.contracts["lib:uuid.uuid4"] = lambda e, st, a, kw, node: [(st, SymObj(UUID, e.fresh_int("uuid")))]

    def ask(st, a):
        if fld(P, a[1], "operation", st) is fld(P, HO, "START", st):
            P.ensure(st, "started once", g.get(st, "started") == 0)
            c = fld(P, a[1], "data", st)
            kept(P, st, c, kw, corner)
            for n in ("population", "fitnesses", "dims"):
                P.ensure(st, n + " as given", getattr(fld(P, c, n, st), "addr", None) == kw[n].addr)
            P.ensure(st, "the given algorithm, adapter and reference point", z3.And(fld(P, c, "driver", st) is kw["driver"], fld(P, c, "driver_message_adapter_factory", st) is kw["driver_message_adapter_factory"], fld(P, c, "reference_point", st) is kw["reference_point"]))
            g.set(st, "started", z3.IntVal(1))
        return SpecObj({"data": None}, "answer")
    sup = SymObj(ADDR, P.int("supervisor"))
    system = SpecObj({"ask": METHOD(ask), "createActor": METHOD(lambda st, a: sup)}, "actors")
    e.contracts["lib:thespian.actors.ActorSystem"] = lambda e, st, a, kw, node: [(st, system)]
    e.contracts[TL + "ResultArchive"] = lambda e, st, a, k, node: [(st, P.obj(ClassVal("archive", None, [], {}, None), {}, st=st))]
    for s, v in P.call(P.get(DH + "DistributedHGS"), [], kw):
        P.ensure(s, "the supervisor is started", g.get(s, "started") == 1)
        P.ensure(s, "no cost yet", R(fld(P, v, "cost", s)) == 0)
