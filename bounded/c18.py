"""C18: the distributed hierarchic search follows its request/reply protocol (actors driven by a scheduler that
chooses the order of deliveries; no real actor system is started)"""
from gens import *
import algs
import numpy as np

ACT = "algorithms.HGS.distributed.actors:"
MSG = "algorithms.HGS.distributed.message:"
NT = "algorithms.HGS.distributed.node_tasks:"


class Names:
    def __init__(self, B):
        self.Sup, self.Node = B.get(ACT + "HgsNodeSupervisor"), B.get(ACT + "Node")
        self.HO, self.NO = B.get(MSG + "HgsOperation"), B.get(MSG + "NodeOperation")
        self.HM, self.NM = B.get(MSG + "HgsMessage"), B.get(MSG + "NodeMessage")
        self.Config, self.NodeConfig = B.get(ACT + "HgsConfig"), B.get(ACT + "NodeConfig")
        self.State = B.get(NT + "NodeState")


class Res:
    def __init__(self, level, epoch_cost, cost=0):
        self.level, self.epoch_cost, self.cost, self.step_no = level, epoch_cost, cost, 1


def supervisor(N, rng, counts, me="SUP"):
    """the real supervisor with recorded sends and invented node addresses"""
    sent = []
    made = []

    class S(N.Sup):
        myAddress = me

        def send(self, target, msg):
            sent.append((target, msg))

        def createActor(self, c, *a, **k):
            made.append("node%d" % len(made))
            return made[-1]
    s = S()
    cfg = N.Config()
    cfg.population = [[float(i), 0.0] for i in range(10)]
    cfg.population_sizes = [4, 3, 2]
    cfg.max_level = 2
    cfg.cost_modifiers = [rng.choice([0.1, 0.5, 1.0, 2.0]) for _ in range(3)]
    cfg.min_progress_ratio = [rng.choice([0.4, 0.1, 0.02]) for _ in range(3)]
    cfg.min_dists = [rng.choice([0.5, 1.0, 2.0]) for _ in range(3)]
    s.receiveMessage(N.HM(N.HO.START, data=cfg), "CLIENT")
    for lvl in (1, 2):
        for _ in range(counts[lvl]):
            s.receiveMessage(N.HM(N.HO.REGISTER_NODE, data=(lvl, [[0.0, 0.0]])), "X")
    sent.clear()
    level = {}
    for lvl, ns in s.level_nodes.items():
        for n in ns:
            level[n] = lvl
    return s, cfg, sent, level


def take(sent):
    out = list(sent)
    sent.clear()
    return out


def setup(B, N):
    counts = {1: B.rng.randint(0, 3), 2: 0}
    if counts[1]:
        counts[2] = B.rng.randint(0, 3)
    return (counts,) + supervisor(N, B.rng, counts)


def broadcast(B, N, inp, s, sent, msg, op, expected):
    """send msg, expect exactly one node message `op` to each address of expected (multiset) and nothing else"""
    ok, _ = B.run(inp, s.receiveMessage, msg, "CLIENT")
    if not ok:
        return None
    out = take(sent)
    req = [(t, m) for t, m in out if isinstance(m, N.NM)]
    if not B.expect(sorted(t for t, m in req) == sorted(expected) and all(m.operation == op for t, m in req), inp, "requests %s, expected %s to each of %s" % ([(t, m.operation) for t, m in req], op, sorted(expected))):
        return None
    if expected and not B.expect(len(out) == len(req), inp, "answered before any node did: %s" % [(t, m.operation) for t, m in out if not isinstance(m, N.NM)]):
        return None
    return req, [(t, m) for t, m in out if not isinstance(m, N.NM)]


def finish(B, N, inp, out, op, rid):
    """exactly one answer to the client, of operation op and the id of the request"""
    if not B.expect(len(out) == 1, inp, "%d messages at completion: %s" % (len(out), [(t, m.operation) for t, m in out])):
        return None
    t, m = out[0]
    if not B.expect(t == "CLIENT" and isinstance(m, N.HM) and m.operation == op and m.id == rid, inp, "completion message %s to %s (id matches: %s)" % (m.operation, t, m.id == rid)):
        return None
    return m


def answers(B, N, inp, s, sent, req, data_of, reply_op):
    """feed the replies in a random order; nothing may be answered before the last one"""
    order = list(req)
    B.rng.shuffle(order)
    for k, (t, m) in enumerate(order):
        ok, _ = B.run((inp, [x for x, _ in order]), s.receiveMessage, N.NM(reply_op, m.id, data_of(t, m)), t)
        if not ok:
            return None
        if k < len(order) - 1:
            early = take(sent)
            if not B.expect(not early, (inp, [x for x, _ in order[:k + 1]]), "messages after %d of %d answers: %s" % (k + 1, len(order), [(x, y.operation) for x, y in early])):
                return None
    return take(sent)


def c_metaepoch(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        counts, s, cfg, sent, level = setup(B, N)
        total = s.cost
        for rnd in range(2):
            inp = ("metaepoch", counts, cfg.cost_modifiers, rnd)
            B.case(inp)
            msg = N.HM(N.HO.NEW_METAEPOCH)
            r = broadcast(B, N, inp, s, sent, msg, N.NO.NEW_METAEPOCH, list(level))
            if not r:
                break
            costs = {n: (None if B.rng.random() < 0.3 else B.rng.choice([0, 1, 5, 12, 40])) for n in level}
            if B.rng.random() < 0.1:
                costs = {n: None for n in level}
            out = answers(B, N, inp, s, sent, r[0], lambda t, m: None if costs[t] is None else Res(level[t], costs[t], 100 + costs[t]), N.NO.METAEPOCH_END)
            if out is None:
                break
            m = finish(B, N, inp, out, N.HO.METAEPOCH_END, msg.id)
            if not m:
                break
            total = total + max([cfg.cost_modifiers[level[n]] * c for n, c in costs.items() if c is not None], default=0)
            if not B.expect(close(m.data, total, 1e-9, 1e-9), (inp, costs, level), "reported cost %r, expected %r" % (m.data, total)):
                break


def c_status(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        counts, s, cfg, sent, level = setup(B, N)
        lvl = B.rng.choice([None, None, 0, 1, 2, 3])
        inp = ("status", counts, lvl)
        B.case(inp)
        exp = [n for n, l in level.items() if lvl is None or l == lvl]
        msg = N.HM(N.HO.CHECK_STATUS, data=lvl)
        r = broadcast(B, N, inp, s, sent, msg, N.NO.CHECK_STATUS, exp)
        if not r:
            continue
        st = {n: N.State(n, level[n], True, False, [0.0], 1) for n in exp}
        out = r[1] if not exp else answers(B, N, inp, s, sent, r[0], lambda t, m: st[t], N.NO.CHECK_STATUS)
        if out is None:
            continue
        m = finish(B, N, inp, out, N.HO.CHECK_STATUS, msg.id)
        if m:
            B.expect(sorted(x.address for x in m.data) == sorted(exp), inp, "states of %s" % [x.address for x in m.data])


def c_population(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        counts, s, cfg, sent, level = setup(B, N)
        inp = ("population", counts)
        B.case(inp)
        msg = N.HM(N.HO.POPULATION)
        r = broadcast(B, N, inp, s, sent, msg, N.NO.POPULATION, list(level))
        if not r:
            continue
        pops = {n: points(B.rng, B.rng.randrange(0, 4), 2, "int") for n in level}
        out = answers(B, N, inp, s, sent, r[0], lambda t, m: list(pops[t]), N.NO.POPULATION)
        if out is None:
            continue
        m = finish(B, N, inp, out, N.HO.POPULATION, msg.id)
        if m:
            B.expect(multiset(m.data) == multiset([p for ps in pops.values() for p in ps]), (inp, pops), "merged %r" % m.data)


def c_two_tasks(B):
    """two tasks under way at the same time do not mix up their answers"""
    N = Names(B)
    for _ in B.loop(150, 3000):
        counts, s, cfg, sent, level = setup(B, N)
        m1, m2 = N.HM(N.HO.POPULATION), N.HM(N.HO.CHECK_STATUS)
        inp = ("population and status at once", counts)
        B.case(inp)
        ok = B.run(inp, s.receiveMessage, m1, "C1")[0] and B.run(inp, s.receiveMessage, m2, "C2")[0]
        if not ok:
            continue
        req = take(sent)
        B.rng.shuffle(req)
        pops = {n: points(B.rng, B.rng.randrange(1, 3), 2, "int") for n in level}
        for t, m in req:
            data = list(pops[t]) if m.operation == N.NO.POPULATION else N.State(t, level[t], True, False, [0.0], 1)
            ok = ok and B.run(inp, s.receiveMessage, N.NM(m.operation, m.id, data), t)[0]
        if not ok:
            continue
        out = take(sent)
        good = len(out) == 2 and {(t, m.operation, m.id) for t, m in out} == {("C1", N.HO.POPULATION, m1.id), ("C2", N.HO.CHECK_STATUS, m2.id)}
        if B.expect(good, inp, "answers %s" % [(t, m.operation) for t, m in out]):
            for t, m in out:
                if t == "C1":
                    B.expect(multiset(m.data) == multiset([p for ps in pops.values() for p in ps]), inp, "merged population %r" % m.data)
                else:
                    B.expect(sorted(x.address for x in m.data) == sorted(level), inp, "states %r" % [x.address for x in m.data])


def c_trim_np(B):
    N = Names(B)
    for _ in B.loop(200, 4000):
        counts, s, cfg, sent, level = setup(B, N)
        inp = ("trim not progressing", counts, cfg.min_progress_ratio)
        B.case(inp)
        msg = N.HM(N.HO.TRIM_NOT_PROGRESSING)
        r = broadcast(B, N, inp, s, sent, msg, N.NO.TRIM_NOT_PROGRESSING, list(level))
        if not r:
            continue
        B.expect(all(m.data == cfg.min_progress_ratio[level[t]] for t, m in r[0]), inp, "ratios sent: %s" % [(level[t], m.data) for t, m in r[0]])
        out = answers(B, N, inp, s, sent, r[0], lambda t, m: None, N.NO.TRIM_NOT_PROGRESSING_END)
        if out is not None:
            finish(B, N, inp, out, N.HO.TRIM_NOT_PROGRESSING_END, msg.id)


def c_redundant(B):
    N = Names(B)
    for _ in B.loop(500, 8000):
        counts = {1: B.rng.randint(0, 5), 2: B.rng.randint(0, 5)}
        s, cfg, sent, level = supervisor(N, B.rng, counts)
        msg = N.HM(N.HO.TRIM_REDUNDANT)
        st = {}
        for n in level:
            alive, ripe = B.rng.choice([(True, False), (True, False), (False, True), (False, False)])
            st[n] = (alive, ripe, np.array([B.rng.choice([0.0, 0.4, 0.9, 1.5, 3.0, 5.0]) for _ in range(2)]))
        inp = ("trim redundant", cfg.min_dists, {n: (level[n], a, r, list(c)) for n, (a, r, c) in st.items()})
        B.case(inp)
        r = broadcast(B, N, inp, s, sent, msg, N.NO.CHECK_STATUS, list(level))
        if not r:
            continue
        out = answers(B, N, inp, s, sent, r[0], lambda t, m: N.State("CALLER", level[t], st[t][0], st[t][1], st[t][2], 3), N.NO.CHECK_STATUS)
        if out is None:
            continue
        kills = [t for t, m in out if isinstance(m, N.NM)]
        if not B.expect(all(m.operation == N.NO.KILL for t, m in out if isinstance(m, N.NM)) and len(set(kills)) == len(kills) and set(kills) <= set(level), inp, "node messages %s" % [(t, m.operation) for t, m in out]):
            continue
        if not finish(B, N, inp, [x for x in out if not isinstance(x[1], N.NM)], N.HO.TRIM_REDUNDANT_END, msg.id):
            continue
        for l in range(3):
            near = lambda a, b: np.linalg.norm(st[a][2] - st[b][2]) < cfg.min_dists[l]
            alive = [n for n in level if level[n] == l and st[n][0]]
            ripe = [n for n in level if level[n] == l and not st[n][0] and st[n][1]]
            left = [n for n in alive if n not in kills]
            B.expect(all(n in alive or level[n] != l for n in kills), (inp, kills), "killed a node that was not alive")
            for n in alive:
                if n in kills:
                    B.expect(any(near(n, o) for o in alive if o != n) or any(near(n, o) for o in ripe), (inp, kills), "%s killed although nothing is near" % n)
                else:
                    B.expect(not any(near(n, o) for o in ripe), (inp, kills), "%s survives next to a ripe node" % n)
                    B.expect(not any(near(n, o) for o in left if o != n), (inp, kills), "two redundant survivors at level %d" % l)
            free = [n for n in alive if not any(near(n, o) for o in ripe)]
            for n in free:
                group = [o for o in alive if o == n or near(n, o)]
                if all(not any(near(o, x) for x in ripe) for o in group) and all(set(o2 for o2 in alive if o2 == o or near(o, o2)) == set(group) for o in group):
                    B.expect(len([o for o in group if o in left]) == 1, (inp, kills), "of the redundant group %s survive %s" % (group, [o for o in group if o in left]))
            if alive and len(free) == len(alive):
                B.expect(left, (inp, kills), "level %d lost all its nodes" % l)


def c_release(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        counts, s, cfg, sent, level = setup(B, N)
        revive = B.rng.random() < 0.6
        st = {n: N.State(n, level[n], False if revive else B.rng.random() < 0.6, B.rng.random() < (0.6 if revive else 0.3), np.array([0.0, 0.0]), 3) for n in level}
        inp = ("release sprouts", counts, [(n, level[n], x.alive, x.ripe) for n, x in st.items()])
        B.case(inp)
        msg = N.HM(N.HO.RELEASE_SPROUTS)
        if not B.run(inp, s.receiveMessage, msg, "CLIENT")[0]:
            continue
        asked, created_at, ok = [], {0: [], 1: [], 2: [], 3: []}, True
        while ok:
            out = take(sent)
            if len(out) == 1 and out[0][0] == "CLIENT":
                break
            if not B.expect(len(out) == 1 and isinstance(out[0][1], N.NM) and out[0][1].operation == N.NO.RELEASE_SPROUTS, inp, "messages %s" % [(t, m.operation) for t, m in out]):
                ok = False
                break
            t, m = out[0]
            asked.append(t)
            if not B.expect(t in level and asked.count(t) == 1, inp, "asked %s" % asked):
                ok = False
                break
            l = level[t]
            exp = sorted([n for n in level if level[n] == l + 1] + [x.address for x in created_at[l + 1]])
            got = sorted(x.address for x in m.data)
            ok = B.expect(got == exp, (inp, asked), "next-level states sent to %s: %s, expected %s" % (t, got, exp))
            new = []
            if not revive and l < 2:
                for _ in range(B.rng.choice([0, 0, 1, 2])):
                    pop = [[B.rng.random(), 0.5] for _ in range(2)]
                    before = {k: list(v) for k, v in s.level_nodes.items()}
                    ok = ok and B.run(inp, s.receiveMessage, N.HM(N.HO.REGISTER_NODE, m.id, (l + 1, pop)), t)[0]
                    o = take(sent)
                    if not ok:
                        break
                    addr = [a for a in s.level_nodes[l + 1] if a not in before[l + 1]]
                    reset = [(a, y) for a, y in o if isinstance(y, N.NM) and y.operation == N.NO.RESET]
                    hello = [a for a, y in o if isinstance(y, N.HM) and y.operation == N.HO.HELLO]
                    back = [(a, y) for a, y in o if isinstance(y, N.HM) and y.operation == N.HO.REGISTER_NODE_END]
                    good = len(addr) == 1 and s.nodes.count(addr[0]) == 1 and hello == addr and len(reset) == 1 and reset[0][0] == addr[0] and reset[0][1].data.level == l + 1 and reset[0][1].data.population == pop \
                        and reset[0][1].data.hgs_config is cfg and len(back) == 1 and back[0][0] == t and back[0][1].id == m.id and back[0][1].data == addr[0] and len(o) == 3 \
                        and all(s.level_nodes[k] == before[k] for k in before if k != l + 1)
                    ok = B.expect(good, (inp, l + 1, pop), "registration: new %s, messages %s" % (addr, [(a, getattr(y, "operation", y)) for a, y in o]))
                    if not ok:
                        break
                    x = N.State("new-%s" % addr[0], l + 1, True, False, np.array([0.5, 0.5]), 2)
                    new.append(x)
            if not ok:
                break
            created_at[l + 1] += new
            ok = B.run(inp, s.receiveMessage, N.NM(N.NO.RELEASE_SPROUTS_END, m.id, (st[t], list(new))), t)[0]
        if not ok:
            continue
        m = finish(B, N, inp, out, N.HO.RELEASE_SPROUTS_END, msg.id)
        if not m:
            continue
        B.expect(sorted(asked) == sorted(level) and [level[a] for a in asked] == sorted((level[a] for a in asked), reverse=True), (inp, asked), "asked %s" % asked)
        # revival follows
        ratios = list(cfg.min_progress_ratio)
        states = list(st.values()) + [x for xs in created_at.values() for x in xs]
        msg = N.HM(N.HO.REVIVE)
        dead = not any(x.alive for x in states)
        ripe = [x.address for x in states if x.ripe] if dead else []
        inp = ("revive", inp)
        r = broadcast(B, N, inp, s, sent, msg, N.NO.REVIVE, ripe)
        if not r:
            continue
        out = answers(B, N, inp, s, sent, r[0], lambda t, m: None, N.NO.REVIVE) if ripe else r[1]
        if out is None:
            continue
        if finish(B, N, inp, out, N.HO.REVIVE_END, msg.id):
            B.expect(list(cfg.min_progress_ratio) == ([x / 2 for x in ratios] if dead else ratios), inp, "ratios %s -> %s" % (ratios, cfg.min_progress_ratio))


# ------------------------------------------------------------------ nodes
def drivers(B, rng, log):
    Driver = B.get("algorithms.base.driver:Driver")

    class MA:
        def __init__(self, d):
            self.driver = d

        def emit_result(self):
            from algorithms.base.model import ProgressMessage
            return ProgressMessage(self.driver.step_no, self.driver.cost)

        def nominate_delegates(self):
            return [list(x) for x in self.driver.pop[:rng.randint(1, max(1, len(self.driver.pop)))]]

        def get_population(self):
            return self.driver.pop

    class D(Driver):
        def __init__(self, population, dims, fitnesses, message_adapter_factory=None, **kw):
            super().__init__(message_adapter_factory=MA)
            self.start = [list(p) for p in population]
            self.pop = [list(p) for p in population]
            self.kw, self.dims, self.fitnesses, self.steps = kw, dims, fitnesses, 0
            self.cost = rng.choice([0, 0, 5])
            log.append(self)

        def step(self):
            self.steps += 1
            self.cost += rng.choice([0, 1, 3, 10])
            for p in self.pop:
                if rng.random() < 0.5:
                    for i, (lo, hi) in enumerate(self.dims):
                        p[i] = min(hi, max(lo, p[i] + rng.uniform(-0.1, 0.1) * (hi - lo)))

        def finalized_population(self):
            return [list(p) for p in self.pop]

        @property
        def population(self):
            return self.pop
    return D, MA


def config(B, N, rng, log):
    D, MA = drivers(B, rng, log)
    cfg = N.Config()
    ds = [(0.0, 1.0), (0.0, 1.0)]
    cfg.driver, cfg.dims = D, ds
    cfg.population = [[rng.random(), rng.random()] for _ in range(10)]
    cfg.population_sizes = [6, 4, 3]
    cfg.fitnesses = objectives(1, 2)
    cfg.fitness_errors = [0.0, 0.0, 0.0]
    cfg.max_level, cfg.max_sprouts_no, cfg.sproutiveness = 2, rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
    cfg.metaepoch_len = [rng.choice([1, 2, 3]) for _ in range(3)]
    cfg.mutation_etas, cfg.mutation_rates = [10.0, 15.0, 20.0], [0.5, 0.4, 0.3]
    cfg.crossover_etas, cfg.crossover_rates = [11.0, 16.0, 21.0], [0.9, 0.8, 0.7]
    cfg.cost_modifiers = [0.1, 0.5, 1.0]
    cfg.min_dists = [rng.choice([0.05, 0.2, 0.5]) for _ in range(3)]
    cfg.min_progress_ratio = [0.1, 0.05, 0.01]
    cfg.mantissa_bits = [8, 16, 52]
    cfg.reference_point = [5.0, 5.0]
    cfg.driver_message_adapter_factory = MA
    cfg.global_fitness_archive = [None] * 3
    return cfg


def node(B, N, rng, level=None):
    log = []
    cfg = config(B, N, rng, log)
    sent = []

    class X(N.Node):
        myAddress = "ME"

        def send(self, target, msg):
            sent.append((target, msg))
    n = X()
    level = rng.randrange(3) if level is None else level
    pop = [[rng.random(), rng.random()] for _ in range(cfg.population_sizes[level])]
    n.receiveMessage(N.HM(N.HO.HELLO), "SUP")
    n.receiveMessage(N.NM(N.NO.RESET, data=N.NodeConfig(cfg, level, pop)), "SUP")
    sent.clear()
    return n, cfg, sent, log, level, pop


def reply(B, N, inp, sent, op, rid, to="SUP"):
    out = take(sent)
    if B.expect(len(out) == 1 and out[0][0] == to and isinstance(out[0][1], N.NM) and out[0][1].operation == op and out[0][1].id == rid, inp, "replies %s, expected one %s" % ([(t, m.operation) for t, m in out], op)):
        return out[0][1]
    return None


def c_node(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        n, cfg, sent, log, level, pop = node(B, N, B.rng)
        inp = ("node", level, cfg.metaepoch_len)
        B.case((inp, pop))
        d = log[-1]
        B.expect(d.start == pop and d.dims == cfg.dims and d.kw.get("mutation_rate") == cfg.mutation_rates[level] and d.kw.get("mutation_eta") == cfg.mutation_etas[level]
                 and d.kw.get("crossover_eta") == cfg.crossover_etas[level] and d.kw.get("crossover_rate") == cfg.crossover_rates[level], inp, "driver built with %r" % d.kw)
        for op in [B.rng.choice(["METAEPOCH", "METAEPOCH", "STATUS", "POP", "KILL", "REVIVE", "TRIM"]) for _ in range(8)]:
            alive, ripe, hist = n.alive, n.ripe, (inp, op)
            if op == "METAEPOCH":
                m = N.NM(N.NO.NEW_METAEPOCH)
                c0, s0 = d.cost, d.steps
                if not B.run(hist, n.receiveMessage, m, "SUP")[0]:
                    break
                r = reply(B, N, hist, sent, N.NO.METAEPOCH_END, m.id)
                if r is None:
                    break
                if alive:
                    B.expect(d.steps - s0 == cfg.metaepoch_len[level] and r.data is not None and r.data.level == level, hist, "%d steps of %d, data %r" % (d.steps - s0, cfg.metaepoch_len[level], r.data))
                    if r.data is not None:
                        # the cost of the driver since the last epoch of this node (the first one includes its construction)
                        B.expect(r.data.epoch_cost == d.cost - c0 or (s0 == 0 and r.data.epoch_cost == d.cost), hist, "epoch cost %r, driver %r -> %r" % (r.data.epoch_cost, c0, d.cost))
                    B.expect(n.population == d.pop and multiset(n.delegates).keys() <= multiset(d.pop).keys() and len(n.delegates) > 0, hist, "population/delegates after the epoch")
                else:
                    B.expect(d.steps == s0 and not r.data, hist, "a dead node ran %d steps" % (d.steps - s0))
            elif op == "STATUS":
                m = N.NM(N.NO.CHECK_STATUS)
                if not B.run(hist, n.receiveMessage, m, "PARENT")[0]:
                    break
                r = reply(B, N, hist, sent, N.NO.CHECK_STATUS, m.id, "PARENT")
                if r is None:
                    break
                st = r.data
                B.expect((st.level, st.alive, st.ripe, st.population_len) == (level, n.alive, n.ripe, len(n.population)), hist, "state %r" % vars(st))
                if n.population:
                    B.expect(np.allclose(st.center, np.mean(n.population, axis=0)), hist, "centre %r" % st.center)
            elif op == "POP":
                m = N.NM(N.NO.POPULATION)
                if not B.run(hist, n.receiveMessage, m, "SUP")[0]:
                    break
                r = reply(B, N, hist, sent, N.NO.POPULATION, m.id)
                if r is None or not B.expect(r.data == n.population, hist, "population"):
                    break
            elif op == "KILL":
                if not B.run(hist, n.receiveMessage, N.NM(N.NO.KILL), "SUP")[0]:
                    break
                B.expect(n.alive is False and n.ripe == ripe, hist, "alive %r after KILL" % n.alive)
                take(sent)
            elif op == "REVIVE":
                m = N.NM(N.NO.REVIVE)
                if not B.run(hist, n.receiveMessage, m, "SUP")[0] or reply(B, N, hist, sent, N.NO.REVIVE, m.id) is None:
                    break
                B.expect(n.alive and not n.ripe, hist, "after REVIVE alive %r ripe %r" % (n.alive, n.ripe))
            else:
                if n.alive and n.population and B.rng.random() < 0.7:
                    n.old_hypervolume, n.hypervolume = B.rng.choice([(1.0, 1.0), (2.0, 2.3), (1.0, 5.0), (0.0, 1.0), (float("-inf"), 1.0), (1.0, 0.5), (2.0, 2.02), (1.0, 1.06)])
                ratio = B.rng.choice([0.0, 0.1, 0.5])
                oh, hv = n.old_hypervolume, n.hypervolume
                stuck = n.alive and oh is not None and oh > 0.0 and hv / (oh + np.finfo(float).eps) - 1.0 < ratio / 2 ** level
                hist = (hist, oh, hv, ratio, n.alive)
                m = N.NM(N.NO.TRIM_NOT_PROGRESSING, data=ratio)
                if not B.run(hist, n.receiveMessage, m, "SUP")[0] or reply(B, N, hist, sent, N.NO.TRIM_NOT_PROGRESSING_END, m.id) is None:
                    break
                B.expect((n.alive, n.ripe) == ((False, True) if stuck else (alive, ripe)), hist, "alive, ripe = %r, %r" % (n.alive, n.ripe))


def c_progress(B):
    """the progress of a node is measured by the dominated hypervolume gained since its first metaepoch"""
    N = Names(B)
    HV = B.get("algorithms.base.hv:HyperVolume")
    for _ in B.loop(60, 800):
        n, cfg, sent, log, level, pop = node(B, N, B.rng)
        d = log[-1]
        first = prev = None
        for k in range(4):
            m = N.NM(N.NO.NEW_METAEPOCH)
            inp = ("hypervolume history", level, k)
            B.case((inp, pop))
            if not B.run(inp, n.receiveMessage, m, "SUP")[0]:
                break
            take(sent)
            v = HV(cfg.reference_point).compute([[f(p) for f in cfg.fitnesses] for p in d.pop])
            if first is None:
                first = v
                ok = n.hypervolume == float("-inf")
                cur = float("-inf")
            else:
                cur = v - first
                ok = close(n.hypervolume, cur, 1e-9, 1e-9)
            ok = ok and (prev is None or n.old_hypervolume == prev or close(n.old_hypervolume, prev, 1e-9, 1e-9))
            prev = cur
            if not B.expect(ok, (inp, pop), "old %r new %r, expected %r" % (n.old_hypervolume, n.hypervolume, cur)):
                break


def c_sprout(B):
    N = Names(B)
    for _ in B.loop(250, 4000):
        n, cfg, sent, log, level, pop = node(B, N, B.rng)
        rng = B.rng
        if not B.run(("metaepoch", level), n.receiveMessage, N.NM(N.NO.NEW_METAEPOCH), "SUP")[0]:
            continue
        take(sent)
        n.alive, n.ripe = rng.choice([(False, True), (False, True), (False, True), (True, False), (False, False)])
        n.sprouts = ["s%d" % i for i in range(rng.choice([0, 0, 1, 3]))] if level < 2 else []
        nxt = [N.State("o%d" % i, level + 1, True, False, np.array([rng.random(), rng.random()]), rng.choice([0, 3])) for i in range(rng.choice([0, 1, 3]))]
        nxt0 = list(nxt)
        delegates = [list(x) for x in n.delegates]
        inp = ("sprouting", level, (n.alive, n.ripe), n.sprouts, cfg.max_sprouts_no, cfg.sproutiveness, cfg.min_dists, delegates, [(list(x.center), x.population_len) for x in nxt])
        B.case(inp)
        m = N.NM(N.NO.RELEASE_SPROUTS, data=nxt)
        if not B.run(inp, n.receiveMessage, m, "SUP")[0]:
            continue
        alive_sprouts, ok, created = 0, True, []
        if n.ripe and n.sprouts:
            req = take(sent)
            ok = B.expect(sorted(t for t, _ in req) == sorted(n.sprouts) and all(x.operation == N.NO.CHECK_STATUS for _, x in req), inp, "sprouts asked: %s" % [(t, x.operation) for t, x in req])
            rng.shuffle(req)
            for t, x in req if ok else []:
                a = rng.random() < 0.5
                alive_sprouts += a
                ok = ok and B.expect(not sent, inp, "went on before all sprouts answered")
                ok = ok and B.run(inp, n.receiveMessage, N.NM(N.NO.CHECK_STATUS, x.id, N.State("ME", level + 1, a, False, np.array([0.0, 0.0]), 3)), t)[0]
        done = None
        while ok:
            out = take(sent)
            if not B.expect(len(out) == 1, inp, "messages %s" % [(t, x.operation) for t, x in out]):
                ok = False
                break
            t, x = out[0]
            if isinstance(x, N.NM):
                ok = B.expect(t == "SUP" and x.operation == N.NO.RELEASE_SPROUTS_END and x.id == m.id, inp, "final message %s to %s" % (x.operation, t))
                done = x
                break
            ok = B.expect(t == "SUP" and x.operation == N.HO.REGISTER_NODE and x.data[0] == level + 1, inp, "message %s %r" % (x.operation, x.data))
            if not ok:
                break
            created.append(x.data[1])
            ok = B.run(inp, n.receiveMessage, N.HM(N.HO.REGISTER_NODE_END, x.id, "new%d" % len(created)), "SUP")[0]
        if not ok:
            continue
        mine, states = done.data
        B.expect((mine.level, mine.alive, mine.ripe) == (level, n.alive, n.ripe) and mine.population_len == len(n.population), inp, "own state %r" % vars(mine))
        # expected: walk the delegates in order
        exp, centres = [], [x.center for x in nxt0 if x.population_len > 0]
        if n.ripe and level < 2 and alive_sprouts < cfg.max_sprouts_no:
            for dlg in delegates:
                if len(exp) >= cfg.sproutiveness:
                    break
                if alive_sprouts + len(exp) >= cfg.max_sprouts_no:
                    break
                if not any(np.linalg.norm(np.array(dlg) - c) < cfg.min_dists[level + 1] for c in centres):
                    k = len(exp)
                    exp.append(dlg)
                    if k < len(created):
                        centres.append(np.mean(created[k], axis=0))
        if not B.expect([p[0] for p in created] == exp, inp, "sprouts from %s, expected %s" % ([p[0] for p in created], exp)):
            continue
        for p in created:
            B.expect(len(p) == cfg.population_sizes[level + 1] and all(within(v, cfg.dims) for v in p), inp, "sprout population %r" % p)
        B.expect(len(states) == len(created) and all(x.level == level + 1 and x.alive and not x.ripe and np.allclose(x.center, np.mean(p, axis=0)) and x.population_len == len(p) for x, p in zip(states, created)), inp, "created states")
        B.expect(n.sprouts[len(n.sprouts) - len(created):] == ["new%d" % (i + 1) for i in range(len(created))], inp, "sprouts %r" % n.sprouts)


# ------------------------------------------------------------------ the whole system
class Bus:
    """message transport with a random scheduler: order is kept between one sender and one receiver only"""

    def __init__(self, rng, limit=20000):
        self.rng, self.q, self.actors, self.out, self.limit, self.count = rng, {}, {}, [], limit, 0

    def spawn(self, cls):
        addr = "%s-%d" % (cls.__name__, len(self.actors))
        bus = self

        class X(cls):
            myAddress = addr

            def send(self, target, msg):
                bus.post(addr, target, msg)

            def createActor(self, c, *a, **k):
                return bus.spawn(c)
        X.__name__ = cls.__name__
        self.actors[addr] = X()
        return addr

    def post(self, src, dst, msg):
        if dst == "EXT":
            self.out.append(msg)
        else:
            self.q.setdefault((src, dst), []).append(msg)

    def deliver(self):
        ks = [k for k, v in self.q.items() if v]
        if not ks:
            return False
        self.count += 1
        if self.count > self.limit:
            raise RuntimeError("more than %d messages" % self.limit)
        k = self.rng.choice(ks)
        m = self.q[k].pop(0)
        self.actors[k[1]].receiveMessage(m, k[0])
        return True

    # the interface DistributedHGS uses
    def createActor(self, cls, *a, **k):
        return self.spawn(cls)

    def ask(self, addr, msg):
        self.post("EXT", addr, msg)
        while not self.out:
            if not self.deliver():
                raise RuntimeError("no answer to %s and nothing left to deliver" % getattr(msg, "operation", msg))
        r = self.out.pop(0)
        if self.out:
            raise RuntimeError("more than one answer to %s" % getattr(msg, "operation", msg))
        return r

    def tell(self, addr, msg):
        pass


def c_system(B):
    N = Names(B)
    DH = B.get("algorithms.HGS.distributed.DistributedHGS:DistributedHGS")
    mod = B.get("algorithms.HGS.distributed.DistributedHGS:")
    if not hasattr(mod, "ActorSystem"):
        return
    saved = mod.ActorSystem
    try:
        for k in B.loop(25, 500):
            rng = random.Random(B.rng.random())
            bus = Bus(rng)
            mod.ActorSystem = lambda *a, **kw: bus
            log = []
            D, MA = drivers(B, rng, log)
            ds = [(0.0, 1.0), (0.0, 2.0)]
            pop = [inbox(rng, ds) for _ in range(20)]
            mp = [rng.choice([0.5, 5.0, 0.0]) for _ in range(3)]
            over = dict(min_progress_ratio=mp, metaepoch_len=[rng.choice([1, 2]) for _ in range(3)], sproutiveness=rng.choice([1, 2]), max_sprouts_no=rng.choice([1, 3]),
                        comparison_multipliers=[rng.choice([0.3, 0.1]), rng.choice([0.2, 0.1]), rng.choice([0.1, 0.02])])
            kw = algs.hgs_kwargs(pop, ds, objectives(1, 2), D, MA, **over)
            inp = ("system", k, over)
            B.case(inp)
            ok, h = B.run(inp, DH, **kw)
            if not ok:
                continue
            sup = bus.actors[h.node_supervisor]
            for stepno in range(5):
                hist = (inp, stepno)
                nodes = [bus.actors[a] for a in sup.nodes]
                alive = [x for x in nodes if x.alive or x.alive is None]
                pend = {id(x): (x.driver.cost if x.driver else None, x.current_cost) for x in nodes}
                before = h.cost
                ok, _ = B.run(hist, h.step)
                if not ok:
                    break
                # the node's own account of the driver's cost: before and after
                inc = [0.0]
                for x in alive:
                    if x.driver is None or id(x) not in pend:
                        continue
                    c0 = pend[id(x)][1] or 0
                    inc.append(kw["cost_modifiers"][x.level] * (x.current_cost - c0))
                if all(pend[id(x)][0] is not None for x in alive):
                    if not B.expect(close(h.cost - before, max(inc), 1e-9, 1e-9), hist, "cost grew by %r, largest weighted node cost %r" % (h.cost - before, max(inc))):
                        break
                lv = {a: l for l, ns in sup.level_nodes.items() for a in ns}
                if not B.expect(sorted(lv) == sorted(sup.nodes) and len(set(sup.nodes)) == len(sup.nodes), hist, "nodes and level lists differ"):
                    break
                ok, fp = B.run(hist, h.finalized_population)
                if not ok or not B.expect(multiset(fp) == multiset([p for a in sup.nodes for p in bus.actors[a].population]), hist, "merged population of %d vectors" % len(fp)):
                    break
                while bus.deliver():
                    pass
                B.expect(not bus.out, hist, "unsolicited answers %s" % bus.out)
                for a in sup.nodes:
                    x = bus.actors[a]
                    kids = [bus.actors[c] for c in x.sprouts]
                    B.expect(x.level == lv[a] and all(c.level == x.level + 1 for c in kids), hist, "levels")
                B.expect(any(bus.actors[a].alive for a in sup.nodes), hist, "no node is alive after the step")
                B.expect(kw["min_progress_ratio"] == mp, hist, "the caller's thresholds changed")
    finally:
        mod.ActorSystem = saved


CHECKS = [("metaepoch", c_metaepoch), ("status", c_status), ("population", c_population), ("concurrent tasks", c_two_tasks), ("progress trimming", c_trim_np), ("redundancy trimming", c_redundant),
          ("sprouting and revival (supervisor)", c_release), ("node operations", c_node), ("node progress", c_progress), ("sprouting (node)", c_sprout), ("whole system, random schedules", c_system)]
