SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C01-rounded-compare", "C01", "evotools/ea_utils.py",
  [("zip([float(x) for x in xs], [float(y) for y in ys])", "zip([round(float(x), 9) for x in xs], [round(float(y), 9) for y in ys])")],
  "objective vectors that differ by less than 1e-9 in some objective",
  "the three-way comparison answers 0 for vectors of which one dominates the other",
  """
from evotools.ea_utils import dominates, domination_cmp
assert dominates([1e-12, 1.0], [2e-12, 1.0])
assert domination_cmp([1.0, 5.0], [1.0, 5.0 + 1e-11]) == 1
""")

S("C02-filter-break", "C02", "metrics/metrics_utils.py",
  [("""
            if dominates(nd_ind, ind):
                dominated_by_sth = True
""", """
            if dominates(nd_ind, ind):
                dominated_by_sth = True
                break
""")],
  "a dominated point arriving after at least two mutually non-dominated ones, its dominator not being the last kept",
  "non-dominated points kept after the dominator are lost",
  """
from metrics.metrics_utils import filter_not_dominated
r = filter_not_dominated([(0.0, 3.0), (3.0, 0.0), (1.0, 4.0)])
assert sorted(r) == [(0.0, 3.0), (3.0, 0.0)], r
""")

S("C03-front-cap", "C03", "algorithms/NSGAII/NSGAII.py",
  [("""
        front_no = 1
        while True:
            if len(self.front[front_no]) is 0:
                break
""", """
        front_no = 1
        while front_no <= 16:
            if len(self.front[front_no]) is 0:
                break
""")],
  "a population with more than seventeen Pareto fronts",
  "individuals of later fronts belong to no front (and get rank 0)",
  """
from algorithms.NSGAII.NSGAII import NSGAII, Individual
fs = [lambda v: v[0], lambda v: v[0] + v[1]]
pop = [[float(i), 0.0] for i in range(25)]
random.shuffle(pop)
a = NSGAII(pop, [(0, 100), (0, 100)], fs, 0.5, 20.0, 20.0, 0.1, 0.9)
a._nd_sort()
fr = [[x.v[0] for x in a.front[k]] for k in sorted(a.front) if a.front[k]]
assert fr == [[float(i)] for i in range(25)], fr
""")

S("C04-omopso-bounce", "C04", "algorithms/OMOPSO/OMOPSO.py",
  [("""
                bounded_x = max(new_x, self.dims[i][0])
                bounded_x = min(bounded_x, self.dims[i][1])

                if bounded_x != new_x:
""", """
                bounded_x = new_x
                if new_x < self.dims[i][0]:
                    bounded_x = 2 * self.dims[i][0] - new_x
                elif new_x > self.dims[i][1]:
                    bounded_x = 2 * self.dims[i][1] - new_x

                if bounded_x != new_x:
""")],
  "a particle whose speed exceeds the width of the domain plus its distance to the bound",
  "the particle bounces off one bound and leaves the domain over the other",
  """
from algorithms.OMOPSO.OMOPSO import OMOPSO
a = OMOPSO([[0.5, 0.5] for _ in range(4)], [lambda v: v[0], lambda v: 1 - v[0]], [(0.0, 1.0), (0.0, 1.0)],
           mutation_eta=20.0, mutation_rate=0.1, crossover_eta=20.0, crossover_rate=0.9, mutation_probability=0.05) \
    if False else None
import inspect
from algorithms.OMOPSO import OMOPSO as M
p = types.SimpleNamespace(value=[0.5, 0.5], speed=[1.8, -2.2])
o = types.SimpleNamespace(individuals=[p], dims=[(0.0, 1.0), (0.0, 1.0)])
M.OMOPSO.move(o)
assert all(0.0 <= x <= 1.0 for x in p.value), p.value
""")

S("C05-ibea-sort-once", "C05", "algorithms/IBEA/IBEA.py",
  [("""
        while len(self.individuals) > self.population_size:
            self.individuals = sorted(
                self.individuals, key=lambda y: self.fitness[y], reverse=True
            )
            removed = self.individuals.pop()
""", """
        self.individuals = sorted(
            self.individuals, key=lambda y: self.fitness[y], reverse=True
        )
        while len(self.individuals) > self.population_size:
            removed = self.individuals.pop()
""")],
  "at least two removals where the first removal changes which individual is worst",
  "individuals are removed by fitness values that are out of date",
  """
from algorithms.IBEA.IBEA import IBEA
bad = 0
rng = random.Random(5)
for t in range(60):
    pop = [[rng.random(), rng.random()] for _ in range(8)]
    a = IBEA(pop[:], [(0, 1), (0, 1)], [lambda v: v[0], lambda v: v[1]], 0.05, 0.5, 20.0, 20.0, 0.1, 0.9)
    a._calculate_fitness()
    ref = list(a.individuals); fit = dict(a.fitness); ind = dict(a.indicators); c = a.c * a.k + sys.float_info.epsilon
    while len(ref) > 4:
        w = min(ref, key=lambda y: fit[y]); ref.remove(w)
        for x in ref:
            fit[x] += math.exp(-ind[(w, x)] / abs(c))
    a.population_size = 4
    a._environmental_selection()
    if set(map(id, ref)) != set(map(id, a.individuals)):
        bad += 1
assert bad == 0, bad
""")

S("C06-all-reference", "C06", "algorithms/base/hv.py",
  [("        if any(referencePoint):", "        if all(referencePoint):")],
  "a reference point with a zero in some but not all coordinates",
  "the points are not translated, so the volume is measured against the origin",
  """
from algorithms.base.hv import HyperVolume
assert abs(HyperVolume([2.0, 0.0]).compute([[1.0, -3.0]]) - 3.0) < 1e-9
assert abs(HyperVolume([0.0, 4.0, 1.0]).compute([[-1.0, 2.0, 0.5]]) - 1.0) < 1e-9
""")

S("C07-spacing-duplicates", "C07", "metrics/metrics_utils.py",
  [("            if not i == j:", "            if not ind_a == ind_b:")],
  "an approximation set with repeated points",
  "a repeated point's nearest-neighbour distance is no longer zero",
  """
from metrics.metrics_utils import spacing
s = [[0.0, 2.0], [0.0, 2.0], [1.0, 1.0], [2.0, 0.0]]
d = [0.0, 0.0, 2.0, 2.0]
m = sum(d) / 4
assert abs(spacing(s) - math.sqrt(sum((m - x) ** 2 for x in d) / 3)) < 1e-9, spacing(s)
""")

S("C08-archive-rounded-key", "C08", "algorithms/HGS/classic/ClassicHGS.py",
  [("""
class ResultArchive(TransformedDict):
    def __keytransform__(self, key):
        return tuple(key)
""", """
class ResultArchive(TransformedDict):
    def __keytransform__(self, key):
        return tuple(round(x, 8) for x in key)
""")],
  "two solutions that differ by less than 1e-8 in every variable",
  "distinct solutions share one fitness archive entry, so the second gets the first one's objectives for free",
  """
from algorithms.HGS.classic.ClassicHGS import ResultArchive
a = ResultArchive()
a[[0.1, 0.2]] = [1.0]
assert [0.1 + 1e-10, 0.2] not in a
assert [0.1, 0.2] in a and a[[0.1, 0.2]] == [1.0]
""")

S("C09-one-slot-per-step", "C09", "algorithms/base/driver.py",
  [("""
                for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
                    self.step_no += 1
""", """
                if time_elapsed_since_last_emission >= self.step:
                    self.step_no += 1
""")],
  "a step that takes longer than two sampling intervals",
  "only one slot is reported for a step that crosses several, so later slots are late, carry newer results or are missing",
  """
import time as T
from algorithms.base import driver as D
class Clock:
    t = 0.0
    def time(self): return self.t
c = Clock(); D.time = c
durs = iter([0.5, 3.2, 0.5, 0.5, 5.0])
class Drv:
    cost = 0; n = 0
    def next_step(self):
        c.t += next(durs); self.n += 1
        return D.ProgressMessage(self.n, self.n)
out = []
D.TimeRun(1, 5).create_job(Drv()).subscribe(lambda m: out.append((m.elapsed_time, m.step_no)))
assert out == [(1, 1), (2, 1), (3, 1), (4, 2), (5, 4)], out
""")

S("C10-label-order", "C10", "simulation/serialization.py",
  [("            for number in sorted(by_number)", "            for number in sorted(by_number, key=str)")],
  "labels with different numbers of digits",
  "labels are returned in alphabetical instead of numeric order",
  """
import shutil, tempfile
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from simulation.serialization import BudgetResultsExtractor
d = tempfile.mkdtemp()
try:
    s = Serializer(SimulationCase("ZDT1", "NSGAII", 1, None, d))
    for b in (500, 1500, 90):
        s.store(Result([[0.1]], [[1.0]]), b)
    r = [c["budget"] for _, c in BudgetResultsExtractor().load("NSGAII", "ZDT1", d)]
    assert r == [90, 500, 1500], r
finally:
    shutil.rmtree(d)
""")

S("C11-duplicate-emigrants", "C11", "algorithms/SPEA2/message.py",
  [("""
                to_remove.append(p)
                immigrants_cp.remove(p["value"])
""", """
                to_remove.append(p)
""")],
  "an island that holds the same solution twice when one of the copies emigrates",
  "both copies leave although only one was chosen, so solutions move that nobody selected",
  """
from algorithms.SPEA2.message import SPEA2IMGAMessageAdapter
class Drv: pass
d = Drv(); d.individuals = [{"value": [0.1]}, {"value": [0.2]}, {"value": [0.1]}]
Drv.population = property(lambda self: [x["value"] for x in self.individuals])
a = SPEA2IMGAMessageAdapter(d)
out = a.emigrate([[0.1]])
assert len(out) == 1 and len(d.individuals) == 2, (out, d.individuals)
""")

S("C12-epoch-cost-telescoping", "C12", "algorithms/HGS/classic/ClassicHGS.py",
  [("""
                    ops.map(lambda message: self.fill_node_info(message)),
                    ops.do_action(lambda message: self.update_current_cost(message)),
                    ops.do_action(on_completed=lambda: self._after_metaepoch()),
""", """
                    ops.map(lambda message: self.fill_node_info(message)),
                    ops.do_action(on_completed=lambda: self._after_metaepoch()),
"""), ("""
            self.population = self.driver.finalized_population()
            self.delegates = self.driver.message_adapter.nominate_delegates()
""", """
            self.current_cost = self.driver.cost
            self.population = self.driver.finalized_population()
            self.delegates = self.driver.message_adapter.nominate_delegates()
""")],
  "a metaepoch of more than one step",
  "the cost of earlier steps of a metaepoch is counted again for every later step",
  """
from algorithms.HGS.classic.ClassicHGS import ClassicHGS
from algorithms.NSGAII.NSGAII import NSGAII
from algorithms.NSGAII.message import NSGAIIHGSMessageAdapter as A
import functools, io, contextlib
fs = [lambda v: v[0], lambda v: 1 - v[0] + v[1]]
pop = [[random.random(), random.random()] for _ in range(20)]
h = ClassicHGS(pop, [(0, 1), (0, 1)], fs, [0, 0, 0], [0.5, 0.7, 1.0],
    functools.partial(NSGAII, mating_population_size=0.5), [20.] * 3, [20.] * 3, [0.3] * 3, [0.9] * 3, [10., 10.],
    [64] * 3, [0.0001] * 3, metaepoch_len=[4, 2, 1], population_sizes=(12, 6, 4),
    driver_message_adapter_factory=A)
c0 = h.root.driver.cost
with contextlib.redirect_stdout(io.StringIO()):
    h.run_metaepoch()
assert abs(h.cost - 0.5 * h.root.driver.cost) < 1e-9, (h.cost, c0, h.root.driver.cost)
""")

S("C13-slice-from-end", "C13", "algorithms/HGS/tools.py",
  [("    digits = tuple([(d if i < bits_no else 0) for i, d in enumerate(digits)])",
    "    cut = max(0, len(digits) - bits_no)\n    digits = tuple(digits)[:-cut] + (0,) * cut if bits_no != 64 else digits")],
  "a precision that covers the whole mantissa exactly (52 bits) or exceeds it, other than the default 64",
  "cutting zero digits from the end cuts all of them",
  """
from algorithms.HGS.tools import trim_mantissa
assert trim_mantissa(0.3, 52) == 0.3
assert trim_mantissa(-1.75, 1) == -1.5
assert trim_mantissa(0.7, 60) == 0.7
""")

S("C14-override-order", "C14", "simulation/factory.py",
  [("""
        load_algorithm_config(algo, config)
        load_algorithm_with_subdrivers_config(algo, all_drivers, driver_pos, config)
""", """
        load_algorithm_with_subdrivers_config(algo, all_drivers, driver_pos, config)
        load_algorithm_config(algo, config)
""")],
  "a setting given both for an algorithm and for that algorithm with particular sub-drivers",
  "the general setting overrides the more specific one",
  """
from simulation import factory, run_config
run_config.algo_base["IMGA"] = dict(run_config.algo_base.get("IMGA", {}), migrants_number=3)
run_config.algo_base[("IMGA", ("SPEA2",))] = dict(run_config.algo_base.get(("IMGA", ("SPEA2",)), {}), migrants_number=7)
drv, _ = factory.prepare("IMGA+SPEA2", "ZDT1")
assert drv.keywords["migrants_number"] == 7, drv.keywords["migrants_number"]
""")

S("C15-tolerance-not-accumulated", "C15", "statistic/stats_bootstrap.py",
  [("        delta += prev_budget - budget", "        delta = 500 + prev_budget - budget")],
  "at least two rejected results before an acceptable one (three budgets)",
  "the tolerance for smaller budgets forgets the earlier steps, so an acceptable result is rejected",
  """
from statistic.stats_bootstrap import find_acceptable_result_for_budget as f
def res(b, c):
    return {"budget": b, "analysis": [("cost", "cost", [lambda: float(c), lambda: float(c)])]}
r = f([res(1000, 3200), res(2000, 4000), res(3000, 9000)], 20)
assert r is not None and r["budget"] == 1000, r
""")

S("C16-uf3-last-index", "C16", "problems/UF3/problem.py",
  [("J2 = [j for j in range(2, n + 1) if not j % 2]", "J2 = [j for j in range(2, n) if not j % 2]")],
  "a point whose last variable matters (any value off the optimal curve)",
  "the second objective ignores the last variable",
  """
from problems.UF3 import problem as p
x = [0.25] + [0.5] * 29
y = x[:29] + [0.9]
assert p.fitnesses[1](x) != p.fitnesses[1](y)
""")

S("C17-params-by-name", "C17", "simulation/metrics_processor.py",
  [("""
                if res["metric"]["params"] != metric_params:
""", """
                if sorted(res["metric"]["params"]) != sorted(metric_params):
""")],
  "a cached metric of a result that is asked for again after the reference front changed",
  "the value computed with the old parameters is returned silently",
  """
import shutil, tempfile
from pathlib import Path
from simulation import metrics_processor as mp
d = Path(tempfile.mkdtemp())
try:
    r = types.SimpleNamespace(path=d / "100.pickle", name="100", fitnesses=[[1.0, 1.0]], non_dominated_fitnesses=[[1.0, 1.0]])
    a = mp.generational_distance(r, [[0.0, 0.0]])
    try:
        b = mp.generational_distance(r, [[1.0, 1.0]])
        assert b == 0.0, b
    except AssertionError:
        raise
    except Exception as e:
        pass
finally:
    shutil.rmtree(str(d))
""")

S("C18-status-root-level", "C18", "algorithms/HGS/distributed/hgs_tasks.py",
  [("        if self.nodes_lvl is not None:", "        if self.nodes_lvl:")],
  "a status request for level 0 while nodes exist on other levels",
  "all nodes are asked and reported instead of those of level 0",
  """
from algorithms.HGS.distributed.hgs_tasks import StatusHgsTask
from algorithms.HGS.distributed.message import HgsMessage, HgsOperation
sent = []
hgs = types.SimpleNamespace(nodes=["r", "a", "b"], level_nodes={0: ["r"], 1: ["a", "b"], 2: []},
    config=types.SimpleNamespace(max_level=2), send=lambda t, m: sent.append(t), log=lambda *a, **k: None)
t = StatusHgsTask(hgs)
t.execute(HgsMessage(HgsOperation.CHECK_STATUS, id="x", data=0), "client")
assert sent == ["r"], sent
""")
