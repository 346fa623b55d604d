SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C03-smsemoa-shared-counts", "C03", "algorithms/SMSEMOA/SMSEMOA.py",
  [("""                how_many_dominates[x] += 1
        if how_many_dominates[x] is 0:
            front[1].append(x)
""", """                how_many_dominates[tuple(x.objectives)] += 1
        if how_many_dominates[tuple(x.objectives)] is 0:
            front[1].append(x)
"""), ("""                how_many_dominates[y] -= 1
                if how_many_dominates[y] is 0:
""", """                how_many_dominates[tuple(y.objectives)] -= 1
                if how_many_dominates[tuple(y.objectives)] is 0:
""")],
  "two individuals with the same objective values that are dominated by somebody",
  "one of two equally good dominated individuals is put into no front at all",
  """
from algorithms.SMSEMOA.SMSEMOA import nd_sort, Individual
pop = []
for o in ([0.0, 0.0], [1.0, 1.0], [1.0, 1.0]):
    p = Individual([0.0]); p.objectives = o; pop.append(p)
assert sum(len(f) for f in nd_sort(pop).values()) == 3
""")

S("C05-spea2-nearest-only", "C05", "algorithms/SPEA2/SPEA2.py",
  [("        if len(result) > 1:\n            return self.get_min(result, level + 1)\n", "        if len(result) > 1 and level < 1:\n            return self.get_min(result, level + 1)\n")],
  "a truncation where two members have the same distance to their nearest neighbour and only the next distances differ",
  "the truncation removes a member other than the most crowded one",
  """
from algorithms.SPEA2.SPEA2 import SPEA2
s = SPEA2.__new__(SPEA2)
pts = [[0.0, 10.0], [1.0, 9.0], [5.0, 5.0], [6.0, 4.0], [6.5, 3.0]]
pop = [{"value": p, "objectives": p} for p in pts]
def key(p):
    return sorted(s.euclidean_distance(p["objectives"], q["objectives"]) for q in pop)
want = min(pop, key=key)
pts2 = [[0.0, 10.0], [1.0, 9.0], [20.0, 0.0], [21.0, -1.0], [22.5, -2.5]]
pop = [{"value": p, "objectives": p} for p in pts2]
want = min(pop, key=key)
assert key(s.choose_to_truncate(pop)) == key(want)
""")

S("C07-epsilon-early-stop", "C07", "metrics/epsilon.py",
  [("""                elif eps_j > eps_k:
                    eps_j = eps_k
""", """                elif eps_j > eps_k:
                    eps_j = eps_k
                elif eps_j < eps_k and j > 1:
                    break
""")],
  "a reference front of four or more points where the best match of a solution comes after a worse one",
  "the epsilon indicator is larger than the shift that is really needed",
  """
from metrics.epsilon import Epsilon
sol = [[1.0, 2.0]]
front = [[5.0, 5.0], [4.0, 0.0], [0.0, 7.0], [1.0, 2.5]]
want = max(min(max(p[k] - s[k] for k in range(2)) for p in front) for s in sol)
assert Epsilon().epsilon(sol, front) == want
""")

S("C09-stored-cost-is-budget", "C09", "simulation/worker.py",
  [("        for budget in self.budgets:\n            budget_run = BudgetRun(budget)\n", "        for budget in dict.fromkeys(max(b, driver.cost) for b in self.budgets):\n            budget_run = BudgetRun(budget)\n")],
  "a driver whose construction already costs more than the smallest budget",
  "no result is stored under a budget the driver had already used up",
  """
import tempfile, shutil, logging, os
from simulation import worker
from simulation.model import SimulationCase
from algorithms.base.driver import Driver
class D(Driver):
    def __init__(self):
        super().__init__(); self.cost = 30
    def step(self): self.cost += 25
    def finalized_population(self): return [[0.5]]
class Mod: fitnesses = [lambda x: x[0]]
d = tempfile.mkdtemp()
try:
    case = SimulationCase("p", "a", 1, None, d, budgets=[10, 20, 100])
    worker.BudgetWorker(case, 0).run_driver(D(), Mod, logging.getLogger("x"))
    got = sorted(f for _, _, fs in os.walk(d) for f in fs)
    assert got == ["10.pickle", "100.pickle", "20.pickle"], got
finally:
    shutil.rmtree(d)
""")

S("C10-run-number-gap", "C10", "simulation/serialization.py",
  [("""            except AttributeError:
                pass


class Number""", """            except AttributeError:
                run_no += candidate.is_dir()


class Number""")],
  "a directory that is no run of the simulation (a backup copy, say) lying among the runs",
  "a foreign directory counts as a run: the run numbers of the later runs are shifted",
  """
import tempfile, shutil, os
from simulation.serialization import BudgetResultsExtractor
from simulation.serializer import Serializer, Result
from simulation.model import SimulationCase
d = tempfile.mkdtemp()
try:
    for i, t in enumerate(["2020-01-01.000000.000001", "2020-01-02.000000.000001"]):
        c = SimulationCase("p", "a", i, None, d, "%s__000000%d" % (t, i))
        Serializer(c).store(Result([[1.0]], [[1.0]], cost=5), "100")
    os.mkdir(os.path.join(d, "p", "a", "2020-01-01.old"))
    (res, conf), = BudgetResultsExtractor().load("a", "p", d)
    assert [r.run_no for r in res] == [0, 1], [r.run_no for r in res]
finally:
    shutil.rmtree(d)
""")

S("C11-weighted-zero", "C11", "evotools/random_tools.py",
  [("        if upto + w > r:\n", "        if upto + w >= r:\n")],
  "a draw of exactly zero with a first choice of weight zero (or a draw on the border of two choices before a zero weight)",
  "the weighted choice returns an element of weight zero",
  """
from unittest import mock
from evotools import random_tools
with mock.patch("random.uniform", lambda a, b: 0.0):
    assert random_tools.weighted_choice([("never", 0.0), ("always", 1.0)]) == "always"
""")

S("C12-redundant-keeps-trimming", "C12", "algorithms/HGS/classic/ClassicHGS.py",
  [("            for i in range(3):\n                self.min_progress_ratio[i] /= 2\n", "            for i in {node.level for node in self.nodes}:\n                self.min_progress_ratio[i] /= 2\n")],
  "a revival that happens before the tree has grown to its deepest level",
  "levels without a node keep their progress threshold when the tree is revived",
  """
from algorithms.HGS.classic.ClassicHGS import ClassicHGS
h = ClassicHGS.__new__(ClassicHGS)
class N: pass
n = N(); n.alive, n.ripe, n.level = False, True, 0
h.nodes, h.min_progress_ratio = [n], [0.4, 0.4, 0.4]
h.level_nodes = {0: [n], 1: [], 2: []}
h.revive_root()
assert n.alive and h.min_progress_ratio == [0.2, 0.2, 0.2], h.min_progress_ratio
""")

S("C14-empty-adapter", "C14", "simulation/factory.py",
  [("        key = (algo, *tuple(all_drivers[driver_pos + 1 :]), problem)\n", "        key = (algo, *tuple(all_drivers[driver_pos + 1 : driver_pos + 2]), problem)\n")],
  "a combination of three drivers (IMGA+HGS+SPEA2) with its own entry in the per-problem configuration",
  "the configuration for IMGA+HGS is used for IMGA+HGS+SPEA2, and the more specific entry is ignored",
  """
from simulation import factory, run_config
run_config.cust_base[("IMGA", "HGS", "SPEA2", "zdt1")] = {"migrants_number": 77}
c = {}
factory.load_problem_config("IMGA", "zdt1", c, ["IMGA", "HGS", "SPEA2"], 0)
assert c.get("migrants_number") == 77, c
""")

S("C15-fence-by-sorted-index", "C15", "statistic/stats_bootstrap.py",
  [("    q1 = numpy.percentile(data_process, 25)\n", "    q1 = numpy.percentile(data_process, 25, interpolation=\"lower\")\n")],
  "a number of measurements for which the lower quartile lies between two of them",
  "the lower quartile, and with it the outlier fences, is that of the next smaller measurement",
  """
from statistic.stats_bootstrap import yield_analysis
r = yield_analysis([1.0, 2.0, 3.0, 4.0], 20)
import numpy
assert r["q1" if "q1" in r else "low_inn_fence"] is not None
q1, q3 = numpy.percentile([1., 2., 3., 4.], 25), numpy.percentile([1., 2., 3., 4.], 75)
assert abs(r["low_inn_fence"] - (q1 - 1.5 * (q3 - q1))) < 1e-12
""")

S("C02-archive-only-first-evicted", "C02", "algorithms/BOGO/BOGO.py",
  [("            if not individual_dominated and dominates(archival.fit, individual.fit):\n", "            if not individual_dominated and (archival.v == individual.v or dominates(archival.fit, individual.fit)):\n")],
  "a solution evaluated again after its objectives gave other values (noisy objectives)",
  "a newcomer that dominates the archived value of the same vector is rejected and the dominated one stays",
  """
from algorithms.BOGO.BOGO import BOGO, Individual
b = BOGO.__new__(BOGO)
b.archive = []
vals = iter([3.0, 3.0, 1.0, 1.0])
f = lambda x: next(vals)
b.refresh_archive(Individual([0.5], [f, f]))
b.refresh_archive(Individual([0.5], [f, f]))
assert [i.fit for i in b.archive] == [[1.0, 1.0]], [i.fit for i in b.archive]
""")

S("C06-translated-in-place", "C06", "algorithms/base/hv.py",
  [("""                relevantPoints[j] = [
                    relevantPoints[j][i] - referencePoint[i] for i in range(dimensions)
                ]
""", """                relevantPoints[j] = [
                    relevantPoints[j][i] - referencePoint[i] if referencePoint[i] > 0 else relevantPoints[j][i]
                    for i in range(dimensions)
                ]
""")],
  "a reference point with a negative coordinate",
  "the volume is measured against zero instead of the negative reference coordinate",
  """
from algorithms.base.hv import HyperVolume
v = HyperVolume([-1.0, 2.0]).compute([[-3.0, 1.0]])
assert abs(v - 2.0) < 1e-12, v
""")

S("C17-nan-recomputed", "C17", "simulation/metrics_processor.py",
  [("""                if res["metric"]["params"] != metric_params:
""", """                if res["metric"]["params"].keys() != metric_params.keys() or any(
                    len(res["metric"]["params"][k]) != len(metric_params[k])
                    for k in metric_params
                ):
""")],
  "a stored metric value computed against another reference set of the same length",
  "a metric value computed for other parameters is returned without notice",
  """
import tempfile, shutil, pathlib
from simulation import metrics_processor
from simulation.serializer import Result, ResultWithMetadata
d = pathlib.Path(tempfile.mkdtemp())
try:
    r = ResultWithMetadata(Result([[0.0]], [[1.0, 1.0]], cost=1), d / "100.pickle", 0, None)
    r.non_dominated_fitnesses = r.fitnesses
    a = metrics_processor.generational_distance(r, [[0.0, 0.0]])
    try:
        b = metrics_processor.generational_distance(r, [[1.0, 1.0]])
    except Exception:
        b = None
    assert b != a
finally:
    shutil.rmtree(d)
""")
