SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C01-sum-shortcut", "C01", "evotools/ea_utils.py",
  [("    return domination_cmp(xs, ys) > 0\n", "    return sum(xs) < sum(ys) and domination_cmp(xs, ys) > 0\n")],
  "a dominating pair whose sums are the same floating point number (one huge or infinite objective)",
  "a vector that is no worse everywhere and better somewhere is not recognised as dominating",
  """
from evotools.ea_utils import dominates
assert dominates([1e20, 0.0], [1e20, 1.0])
assert dominates([float("inf"), 0.0], [float("inf"), 1.0])
assert not dominates([0.0, 1.0], [1.0, 0.0])
""")

S("C05-scalar-key", "C05", "algorithms/NSGAII/NSGAII.py",
  [("""        fitness = lambda ind: (
            self.nsga_rank[ind],
            1 / (self.dist[ind] + sys.float_info.epsilon),
        )
""", """        fitness = lambda ind: (
            self.nsga_rank[ind] * 1e6
            + 1 / (self.dist[ind] + sys.float_info.epsilon)
        )
""")],
  "a selection where an individual of a better rank has a crowding distance near zero (duplicates inside a front)",
  "an individual of a worse front survives in place of one of a better front",
  """
from algorithms.NSGAII.NSGAII import NSGAII
class I:
    def __init__(self, n): self.n = n; self.v = [n]
a = NSGAII.__new__(NSGAII)
ps = [I(i) for i in range(4)]
a.individuals = list(ps)
a.population_size = 3
a.nsga_rank = {p: r for p, r in zip(ps, (0, 0, 0, 1))}
a.dist = {p: r for p, r in zip(ps, (float("inf"), 0.0, 0.0, float("inf")))}
a._environmental_selection()
assert set(p.n for p in a.individuals) == {0, 1, 2}, [p.n for p in a.individuals]
""")

S("C09-rounded-cost", "C09", "algorithms/base/driver.py",
  [("        while driver.cost < self.budget:\n", "        while round(driver.cost) < self.budget:\n")],
  "a driver that reports fractional costs (HGS weighs evaluations by level) and stands within half a unit of the budget",
  "the run stops before the cost has reached the budget",
  """
from algorithms.base.driver import BudgetRun
class D:
    cost = 0.0
    def next_step(self):
        self.cost += 0.55
        return self.cost
for b in (1, 5, 6, 9):
    d = D()
    BudgetRun(b).create_job(d).subscribe(lambda m: None)
    assert d.cost >= b, (b, d.cost)
    assert d.cost < b + 0.55 + 1e-9, (b, d.cost)
""")

S("C10-cached-load", "C10", "simulation/serializer.py",
  [("import pickle\n", "import functools\nimport pickle\n"), ("def load_file(path: Path):\n", "@functools.lru_cache(maxsize=None)\ndef load_file(path: Path):\n")],
  "a result that is read, stored again under the same name and read again in the same process",
  "the second read gives the old result",
  """
import tempfile, shutil, os, types
from simulation.serializer import Serializer, Result
d = tempfile.mkdtemp()
try:
    case = types.SimpleNamespace(results_dir=d, problem_name="p", algorithm_name="a", id="x")
    s = Serializer(case)
    s.store(Result([[0.0]], [[1.0]]), "100")
    assert s.load("100").fitnesses == [[1.0]]
    s.store(Result([[0.0]], [[2.0]]), "100")
    assert s.load("100").fitnesses == [[2.0]]
finally:
    shutil.rmtree(d)
""")

S("C12-sprout-near-dead", "C12", "algorithms/HGS/classic/ClassicHGS.py",
  [("                                    if len(x.population) > 0\n", "                                    if len(x.population) > 0 and x.alive\n")],
  "a delegate that lies next to the centre of a node of the next level that has been stopped",
  "a sprout is released on top of an already explored (dead) node",
  """
import types
from algorithms.HGS.classic import ClassicHGS as m
H = m.ClassicHGS
made = []
def node(alive, center, level):
    n = H.Node.__new__(H.Node)
    n.alive, n.ripe, n.level, n.sprouts, n.delegates, n.population, n.center = alive, False, level, [], [], [center], center
    return n
root = node(False, [0.0], 0)
root.ripe = True
root.delegates = [[1.0]]
dead = node(False, [1.01], 1)
o = types.SimpleNamespace(max_level=1, max_sprouts_no=5, sproutiveness=2, min_dists=[1.0, 0.5], nodes=[root, dead], level_nodes=[[root], [dead]],
                          population_sizes=[2, 2], dims=[(0.0, 2.0)], mutation_rates=[1.0, 1.0], mutation_etas=[1.0, 1.0])
root.owner = o
H.Node.__init__ = lambda self, owner, level, population: (made.append(population), setattr(self, "alive", True), setattr(self, "population", []))[0] and None
root.release_new_sprouts()
assert not made, made
""")

S("C13-negative-zero", "C13", "algorithms/HGS/tools.py",
  [("    sign, digits, exponent = floatextras.as_tuple(value)\n", "    if not value:\n        return 0.0\n    sign, digits, exponent = floatextras.as_tuple(value)\n")],
  "a coordinate that is minus zero",
  "the sign of the value is lost by the truncation",
  """
import math
from algorithms.HGS.tools import trim_mantissa
for b in (4, 16, 64):
    assert math.copysign(1.0, trim_mantissa(-0.0, b)) == -1.0
    assert trim_mantissa(0.0, b) == 0.0 and trim_mantissa(1.5, 64) == 1.5
""")

S("C15-tied-weak-winner", "C15", "statistic/ranking.py",
  [("        if algo != winner[0]\n", "        if score != winner[1]\n")],
  "two algorithms with exactly the same best score",
  "an algorithm that ties with the winner is not credited as a weak winner",
  """
from statistic.ranking import get_weak_winners
assert get_weak_winners([("a", 1.0), ("b", 1.0), ("c", 5.0)], ("a", 1.0), 0.05) == [("b", 1.0)]
""")

S("C02-leader-room-first", "C02", "algorithms/OMOPSO/OMOPSO.py",
  [("""        added = super().add(p)
        if added and len(self.archive) > self.size:
            self.prune()
        return added
""", """        if len(self.archive) >= self.size:
            self.prune()
        return super().add(p)
""")],
  "a full archive of leaders that is offered a dominated solution, or one that evicts several members",
  "a non-dominated leader is thrown away although the offered solution never enters",
  """
from algorithms.OMOPSO.OMOPSO import LeaderArchive, Individual
def P(o):
    p = Individual([0.0])
    p.objectives = o
    return p
a = LeaderArchive(3)
for o in ([0.0, 3.0], [1.0, 2.0], [3.0, 0.0]):
    a.add(P(o))
assert not a.add(P([4.0, 4.0]))
assert len(a.archive) == 3
""")

S("C18-trim-answer-order", "C18", "algorithms/HGS/distributed/hgs_tasks.py",
  [("            self.trim_infos.sort(reverse=True, key=lambda info: info.level)\n", "            self.trim_infos.reverse()\n")],
  "status answers of nodes of different levels that arrive interleaved, with two close nodes of one level apart in that order",
  "a redundant node survives: nodes of one level are split into several groups and never compared",
  """
import types
from algorithms.HGS.distributed.hgs_tasks import TrimRedundantHgsTask
from algorithms.HGS.distributed.message import NodeOperation, HgsOperation
def run(order):
    sent = []
    hgs = types.SimpleNamespace(nodes=["r", "a", "b"], config=types.SimpleNamespace(min_dists=[1.0, 1.0]), send=lambda t, m: sent.append((t, m.operation)),
                                log=lambda *a, **k: None)
    t = TrimRedundantHgsTask(hgs)
    t.send_trim_request(types.SimpleNamespace(id=1, data=None), "hgs")
    info = {"r": (0, 5.0), "a": (1, 0.0), "b": (1, 0.1)}
    for n in order:
        lvl, c = info[n]
        t.receive_trim_confirmation(types.SimpleNamespace(id=t.id, data=types.SimpleNamespace(level=lvl, alive=True, ripe=False, center=[c], node=None)), n)
    return [x for x in sent if x[1] == NodeOperation.KILL]
for order in ("rab", "arb", "bra", "abr"):
    assert len(run(order)) == 1, order
""")

S("C18-release-counts-checked", "C18", "algorithms/HGS/distributed/node_tasks.py",
  [("        self.alive_sprouts_count += 1 if msg.data.alive else 0\n", "        self.alive_sprouts_count += 1 if msg.data.alive or msg.data.ripe else 0\n")],
  "a ripe node that already has as many stopped (ripe) sprouts as the limit of live sprouts",
  "no new sprout is released although the number of live sprouts is under the limit",
  """
import types
from algorithms.HGS.distributed.node_tasks import ReleaseSproutsNodeTask
from algorithms.HGS.distributed.message import HgsOperation
sent = []
node = types.SimpleNamespace(ripe=True, alive=False, level=0, max_level=1, max_hgs_sprouts_no=1, sproutiveness=1, delegates=[[0.5]], sprouts=["s1"], population=[[0.5]],
    min_dists=[1.0, 0.1], hgs_population_sizes=[2, 2], hgs_dims=[(0.0, 1.0)], hgs_mutation_rates=[1.0, 1.0], hgs_mutation_etas=[1.0, 1.0], myAddress="me", supervisor="hgs",
    send=lambda t, m: sent.append(m.operation), log=lambda *a, **k: None)
t = ReleaseSproutsNodeTask(node)
t.receive_sprouting_request(types.SimpleNamespace(id=1, data=[]), "hgs")
t.receive_sprout_state(types.SimpleNamespace(id=t.id, data=types.SimpleNamespace(alive=False, ripe=True)), "s1")
assert HgsOperation.REGISTER_NODE in sent, sent
""")

S("C17-stale-by-length", "C17", "simulation/metrics_processor.py",
  [('                if res["metric"]["params"] != metric_params:\n', '                if sorted(res["metric"]["params"]) != sorted(metric_params):\n')],
  "a metric asked for with the same parameter names but another value (another reference front)",
  "the value remembered for the old parameters is returned",
  """
import tempfile, shutil, types, sys, pathlib, logging
logging.disable(logging.CRITICAL)
from simulation.metrics_processor import get_metric
mod = types.ModuleType("tmp_metric_q")
mod.m = lambda f, nd, pareto=None: len(pareto)
sys.modules["tmp_metric_q"] = mod
d = tempfile.mkdtemp()
try:
    r = types.SimpleNamespace(path=pathlib.Path(d) / "5.pickle", name="5", fitnesses=[[1.0]], non_dominated_fitnesses=[[1.0]])
    assert get_metric(r, "m", ["tmp_metric_q"], {"pareto": [1]}) == 1
    try:
        v = get_metric(r, "m", ["tmp_metric_q"], {"pareto": [1, 2]})
    except BaseException:
        v = None
    assert v != 1, v
finally:
    shutil.rmtree(d)
""")
