SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C01-omopso-relaxed-ties", "C01", "algorithms/OMOPSO/OMOPSO.py",
  [("""
            elif p2.objectives[i] > self.objectives[i] / (1 + eta):
                at_least_one = True
""", """
            elif p2.objectives[i] - self.objectives[i] / (1 + eta) > 1e-12:
                at_least_one = True
""")],
  "two particles equal in all objectives but one, where they differ by a tiny amount",
  "a particle no longer dominates another that is worse by less than 1e-12",
  """
from algorithms.OMOPSO.OMOPSO import Individual
a, b = Individual([0.0]), Individual([0.0])
a.objectives, b.objectives = [1e-13, 0.5], [3e-13, 0.5]
assert a.dominates(b) and not b.dominates(a)
""")

S("C02-archive-eta-one-way", "C02", "algorithms/OMOPSO/OMOPSO.py",
  [("            if l.dominates(p, self.eta):\n", "            if l.dominates(p):\n")],
  "a relaxed archive and a newcomer better than an archived point by less than the relaxation in one objective and worse in another",
  "the archive holds two points of which one dominates the other under its own relaxation",
  """
from algorithms.OMOPSO.OMOPSO import Individual, Archive
a = Archive(0.1)
for o in ([1.0, 1.0], [0.95, 3.0]):
    p = Individual([0.0]); p.objectives = o; a.add(p)
assert len(a.archive) == 1, [p.objectives for p in a.archive]
""")

S("C03-layers-by-pairs", "C03", "evotools/ea_utils.py",
  [("        for i, j in itertools.permutations(lst_f_doms, 2):\n", "        for i, j in itertools.combinations(sorted(lst_f_doms, key=lambda l: l[1][0]), 2):\n")],
  "two members equal in the first objective, the dominated one standing before its dominator",
  "a dominated member is put into the same front as its dominator",
  """
from evotools.ea_utils import paretofront_layers
r = list(paretofront_layers([(1.0, 5.0), (1.0, 2.0), (3.0, 1.0)], fitfun_res=lambda x: x))
assert [sorted(l) for l in r] == [[(1.0, 2.0), (3.0, 1.0)], [(1.0, 5.0)]], r
""")

S("C04-jgbl-delete-order", "C04", "algorithms/JGBL/JGBL.py",
  [("        indexes = reversed(*args)\n", "        indexes = sorted(*args)\n")],
  "a gene jump (more non-dominated members than places) that cuts two or more genes, one of the last among them",
  "cutting a transposon fails, or removes other genes than those that are pasted elsewhere",
  """
from algorithms.JGBL.JGBL import JGBL
j = JGBL.__new__(JGBL)
j.dims, j.jumping_percentage = [(0.0, 1.0)] * 4, 0.5
random.seed(3)
for _ in range(200):
    a, b = j.cut_and_paste([0.1, 0.2, 0.3, 0.4], [0.5, 0.6, 0.7, 0.8])
    assert len(a) == len(b) == 4
    assert all(0.0 <= x <= 1.0 for x in a + b)
""")

S("C05-ibea-direction", "C05", "algorithms/IBEA/IBEA.py",
  [("                        self.indicators[(removed, x)]\n", "                        self.indicators[(x, removed)]\n")],
  "two or more members have to go in one selection",
  "after the first removal the fitness of the others is corrected with the wrong direction of the indicator, so a later victim is not the worst",
  """
from algorithms.IBEA.IBEA import IBEA
def survivors(objs, size, k):
    o = IBEA.__new__(IBEA)
    o.individuals = [IBEA.Individual(list(v)) for v in objs]
    o.population_size, o.k = size, k
    o.scaled_objectives = [lambda v: v[0], lambda v: v[1]]
    o.indicator = IBEA.EPlusIndicator(o)
    o._calculate_fitness()
    left = [list(v) for v in objs]
    c = o.c * k + sys.float_info.epsilon
    ind = lambda a, b: max(x - y for x, y in zip(a, b))
    while len(left) > size:
        fit = [sum(-math.exp(-ind(b, a) / c) for b in left if b is not a) for a in left]
        del left[min(range(len(left)), key=lambda i: fit[i])]
    o._environmental_selection()
    return sorted(i.v for i in o.individuals), sorted(left)
rnd = random.Random(5)
for _ in range(60):
    objs = [[rnd.random(), rnd.random()] for _ in range(8)]
    a, b = survivors(objs, 3, 0.2)
    assert a == b, (objs, a, b)
""")

S("C06-ignore-kept", "C06", "algorithms/base/hv.py",
  [("""
                if q.ignore < dimIndex:
                    q.ignore = 0
""", """
                if q.ignore < dimIndex - 1:
                    q.ignore = 0
""")],
  "four or more objectives and a point that is dominated in a projection only",
  "a point remembered as dominated in a lower dimension stays ignored, the volume is too small",
  """
from algorithms.base.hv import HyperVolume
import itertools
def exact(pts, ref):
    v = 0.0
    for k in range(1, len(pts) + 1):
        for c in itertools.combinations(pts, k):
            v += (-1) ** (k + 1) * math.prod(r - max(p[i] for p in c) for i, r in enumerate(ref))
    return v
rnd = random.Random(1)
for d in (4, 5):
    for _ in range(150):
        pts = [[float(rnd.randint(0, 5)) for _ in range(d)] for _ in range(6)]
        ref = [6.0] * d
        a, b = HyperVolume(ref).compute([list(p) for p in pts]), exact(pts, ref)
        assert abs(a - b) < 1e-6, (pts, a, b)
""")

S("C07-igd-front-only", "C07", "metrics/metrics.py",
  [("    return metrics_utils.inverse_generational_distance(solution, pareto)\n",
    "    return metrics_utils.inverse_generational_distance(not_dominated_solution, pareto)\n")],
  "a set in which a dominated member is closer to some reference point than every non-dominated one",
  "the inverted generational distance ignores dominated members although it is defined on the whole set",
  """
from metrics import metrics
sol, front = [(0.0, 0.0), (1.0, 3.0)], [(0.0, 0.0)]
par = [(1.0, 3.0)]
assert metrics.inverse_generational_distance(sol, front, par) == 0.0
""")

S("C08-nsga3-copied-objectives", "C08", "algorithms/NSGAIII/NSGAIII.py",
  [("""
        child_a.objectives = [x for x in parent_a.objectives]
        child_b.objectives = [x for x in parent_b.objectives]
        return child_a, child_b
""", """
        child_a.objectives = [x for x in parent_b.objectives]
        child_b.objectives = [x for x in parent_a.objectives]
        return child_a, child_b
""")],
  "a pair that is not recombined and not mutated",
  "each child is taken to have the other child's objective values, and these are never computed",
  """
from algorithms.NSGAIII import NSGAIII as M
a, b = M.Individual([0.25]), M.Individual([0.75])
a.objectives, b.objectives = [0.25], [0.75]
x, y = M.simulated_binary_crossover(a, b, [(0.0, 1.0)], crossover_rate=0.0)
for c in (x, y):
    assert c.objectives is None or c.objectives == c.v, (c.v, c.objectives)
""")

S("C09-last-slot", "C09", "algorithms/base/driver.py",
  [("                    if emission_time <= self.timeout:\n", "                    if emission_time < self.timeout:\n")],
  "a limit that is a multiple of the sampling interval and a step that crosses it",
  "the result for the last slot, at the limit itself, is never reported",
  """
import algorithms.base.driver as D
class Drv(D.Driver):
    def step(self): pass
now = [0.0]
D.time = types.SimpleNamespace(time=lambda: now[0])
class Slow(Drv):
    def next_step(self):
        now[0] += 1.0
        return self.message_adapter.emit_result()
got = []
D.TimeRun(2, 4).create_job(Slow()).subscribe(lambda m: got.append(m.elapsed_time))
assert got == [2, 4], got
""")

S("C10-run-order", "C10", "simulation/serialization.py",
  [("        for candidate in sorted(rootpath.iterdir()):\n            try:\n                match = re.fullmatch(\n                    \"(?P<rundate>",
    "        for candidate in sorted(rootpath.iterdir(), key=lambda p: p.name[::-1][:7][::-1]):\n            try:\n                match = re.fullmatch(\n                    \"(?P<rundate>")],
  "an experiment that was repeated on a later day with run numbers starting again from zero",
  "run numbers do not count the runs in chronological order",
  """
import shutil, tempfile
from pathlib import Path
from simulation.serialization import BudgetResultsExtractor
d = Path(tempfile.mkdtemp())
try:
    names = ["2020-01-01.100000.000000__0000000", "2020-01-01.100001.000000__0000001", "2020-01-02.100000.000000__0000000"]
    for n in names:
        (d / "P" / "A" / n).mkdir(parents=True)
    got = [(c.id, k) for c, k in BudgetResultsExtractor()._each_run("A", "P", str(d))]
    assert got == [(n, i) for i, n in enumerate(names)], got
finally:
    shutil.rmtree(str(d))
""")

S("C11-torus-last-row", "C11", "algorithms/IMGA/topology.py",
  [("""
                    first_neighbors.remove(last)
                    first_neighbors.append(i)
""", """
                    if last_width > 1:
                        first_neighbors.remove(last)
                    first_neighbors.append(i)
""")],
  "a number of islands that leaves exactly one island in a third or later row",
  "the first island keeps its link to the island above the new one, which has given up its link back",
  """
from algorithms.IMGA.topology import TorusTopology
for w in range(1, 5):
    for n in range(1, 12):
        t = TorusTopology(w).create(n)
        for i, ns in enumerate(t):
            assert all(0 <= j < n and i in t[j] for j in ns), (w, n, t)
""")

S("C12-sprout-limit-once", "C12", "algorithms/HGS/classic/ClassicHGS.py",
  [("""
                            released_sprouts >= self.owner.sproutiveness
                            or len([x for x in self.sprouts if x.alive])
                            >= self.owner.max_sprouts_no
""", """
                            released_sprouts >= self.owner.sproutiveness
                            or released_sprouts
                            >= self.owner.max_sprouts_no
""")],
  "a node that already has live sprouts, but fewer than allowed, and sprouts again",
  "the node gets more live sprouts than allowed",
  """
from algorithms.HGS.classic import ClassicHGS as M
N = M.ClassicHGS.Node
class Fake:
    def __init__(self, owner, level, population):
        self.alive, self.ripe, self.level, self.population = True, False, level, []
        self.sprouts, self.center = [], None
    def release_new_sprouts(self): pass
owner = types.SimpleNamespace(max_level=2, max_sprouts_no=3, sproutiveness=3, min_dists=[0.0] * 3,
    population_sizes=[4] * 3, dims=[(0, 1)], mutation_rates=[0.5] * 3, mutation_etas=[20.] * 3,
    nodes=[], level_nodes={0: [], 1: [], 2: []})
node = types.SimpleNamespace(ripe=True, level=0, owner=owner, delegates=[[i / 10.0] for i in range(8)], sprouts=[])
node.sprouts = [Fake(owner, 1, []), Fake(owner, 1, [])]
rel = N.release_new_sprouts
M.ClassicHGS.Node = Fake
rel(node)
assert len([s for s in node.sprouts if s.alive]) <= 3, len(node.sprouts)
""")

S("C13-flush-tiny", "C13", "algorithms/HGS/classic/ClassicHGS.py",
  [("""
    sign, digits, exponent = floatextras.as_tuple(value)
""", """
    if math.fabs(value) < EPSILON:
        return 0.0
    sign, digits, exponent = floatextras.as_tuple(value)
""")],
  "a coordinate smaller in magnitude than the machine epsilon",
  "the number loses its exponent and all its leading bits",
  """
from algorithms.HGS.classic.ClassicHGS import trim_mantissa, trim_vector
for x in (1.0, 2.0 ** -60, -2.0 ** -80, 3 * 2.0 ** -70):
    assert trim_mantissa(x, 52) == x, x
    assert trim_vector([x], 4) == [x]
""")

S("C14-shared-config", "C14", "simulation/factory.py",
  [("""
        config = {}

        load_obligatory_problem_parameters(config, problem_mod)
""", """
        config = {} if driver else run_config.algo_base.get(algo, {})

        load_obligatory_problem_parameters(config, problem_mod)
""")],
  "two simulations of the same algorithm, with its own base configuration, prepared one after the other in one process",
  "the second simulation starts with the first one's configuration (its initial population included)",
  """
from simulation import factory
a, pa = factory.prepare("NSGAII", "ZDT1")
b, pb = factory.prepare("NSGAII", "ackley")
assert len(b.keywords["population"][0]) == len(pb.dims), len(b.keywords["population"][0])
assert a.keywords["dims"] == pa.dims and b.keywords["dims"] == pb.dims
""")

S("C15-metric-of-resamples", "C15", "statistic/stats_bootstrap.py",
  [("""        "metrics": f(population),\n""", """        "metrics": f(btstrp),\n""")],
  "any sample whose resampled mean differs from its mean",
  "the reported metric is the mean of resampled means, not the mean of the sample",
  """
from statistic.stats_bootstrap import bootstrap, average
random.seed(1)
r = bootstrap([1.0, 2.0, 10.0], average, 20, 2, 0.025)
assert r["metrics"] == 13.0 / 3, r
""")

S("C16-uf6-hole", "C16", "problems/UF6/problem.py",
  [("    for i in range(1, n + 1)\n", "    for i in range(0, n + 1)\n")],
  "the first points of the reference front",
  "the reference front holds points in front of the first segment (negative first objective), which no solution can reach",
  """
from problems.UF6 import problem as p
assert all(f[0] >= 0 and f[1] <= 1 for f in p.pareto_front), min(p.pareto_front)
""")

S("C17-freshness-by-size", "C17", "simulation/metrics_processor.py",
  [("        and solutions == problem_solutions\n", "        and list(map(len, solutions)) == list(map(len, problem_solutions))\n")],
  "a result that is overwritten by another one after the pool was stored",
  "the old pool is used for the dominance indicator of the new results",
  """
import shutil, tempfile, io, contextlib
from collections import defaultdict
from pathlib import Path
from simulation import metrics_processor as mp
from simulation.serializer import Result, save_file
d = Path(tempfile.mkdtemp()) / "P"
try:
    run = d / "A" / "2020-01-01.100000.000000__0000000"
    run.mkdir(parents=True)
    for fit in ([[1.0, 1.0]], [[0.5, 0.5]]):
        save_file(run / "100.pickle", Result([[0.0]], fit, cost=1))
        c = defaultdict(list)
        with contextlib.redirect_stdout(io.StringIO()):
            mp.preload_results_for_problem(c, d)
        assert c[("P", "100", 0)] == {tuple(fit[0])}, dict(c)
finally:
    shutil.rmtree(str(d.parent))
""")

S("C18-live-sprouts-forgotten", "C18", "algorithms/HGS/distributed/node_tasks.py",
  [("""
        self.released_sprouts += 1
        self.alive_sprouts_count += 1
""", """
        self.released_sprouts += 1
        self.alive_sprouts_count = max(self.alive_sprouts_count, self.released_sprouts)
""")],
  "a node that already has live sprouts, but fewer than allowed, and sprouts again",
  "the node gets more live sprouts than allowed",
  """
from algorithms.HGS.distributed import node_tasks as M
from algorithms.HGS.distributed.message import NodeMessage, HgsMessage, NodeOperation, HgsOperation
sent = []
node = types.SimpleNamespace(level=0, max_level=2, max_hgs_sprouts_no=3, sproutiveness=3, delegates=[[i / 10.0] for i in range(8)],
    ripe=True, alive=False, sprouts=["a", "b"], min_dists=[0.0] * 3, hgs_population_sizes=[4] * 3, hgs_dims=[(0, 1)], population=[[0.5]],
    hgs_mutation_rates=[0.5] * 3, hgs_mutation_etas=[20.] * 3, supervisor="sup", myAddress="me",
    send=lambda t, m: sent.append((t, m)), log=lambda *a, **k: None)
t = M.ReleaseSproutsNodeTask(node)
t.execute(NodeMessage(NodeOperation.RELEASE_SPROUTS, "x", []), "sup")
for s in ("a", "b"):
    t.execute(NodeMessage(NodeOperation.CHECK_STATUS, t.id, types.SimpleNamespace(alive=True)), s)
n = 0
while sent[-1][1].operation == HgsOperation.REGISTER_NODE and n < 10:
    n += 1
    t.execute(HgsMessage(HgsOperation.REGISTER_NODE_END, t.id, "new%d" % n), "sup")
assert len(node.sprouts) <= 3, node.sprouts
""")
