SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C14-drawn-cases", "C14", "simulation/run_parallel.py",
  [("    random.shuffle(simulation_cases)\n", "    simulation_cases = random.choices(simulation_cases, k=len(simulation_cases))\n")],
  "a command line that asks for more than one simulation",
  "some of the requested simulations run twice and others never, though as many are run as were asked for",
  """
import types, random
import simulation.run_parallel as rp
from simulation import factory
random.seed(3)
rp.ActorSystem = lambda *a, **k: types.SimpleNamespace(shutdown=lambda: None)
rp.rxtools = types.SimpleNamespace(configure_default_executor=lambda n: None, shutdown_default_executor=lambda: None)
ran = []
class W:
    def __init__(self, s, no): self.s, self.no = s, no
    def run(self):
        ran.append(self.s.run_id)
        return [], 0.1, self.no
cases = [types.SimpleNamespace(run_id=i, config=("P", "A")) for i in range(12)]
factory.resolve_configuration = lambda args: (W, list(cases))
rp.run_parallel({"-j": "1", "-N": "12"})
assert sorted(ran) == list(range(12)), ran
""")

S("C14-first-part", "C14", "simulation/worker.py",
  [("                self.simulation.algorithm_name, self.simulation.problem_name\n", "                self.simulation.algorithm_name.rpartition(\"+\")[0] or self.simulation.algorithm_name,\n                self.simulation.problem_name,\n")],
  "a selection with an inner algorithm (HGS+SPEA2)",
  "the innermost algorithm of the selection is left out of the run, the results are stored under the full name",
  """
import types
import simulation.worker as w
from simulation.model import SimulationCase
got = []
def prepare(a, p):
    got.append((a, p))
    return (lambda: types.SimpleNamespace(shutdown=lambda: None)), None
w.factory.prepare = prepare
w.log_helper.init = lambda: None
class T(w.SimulationWorker):
    def run_driver(self, d, m, l): return []
for a in ("NSGAII", "HGS+SPEA2", "IMGA+HGS+SPEA2"):
    got.clear()
    assert T(SimulationCase("ZDT1", a, 1, None, "results"), 0).run()[2] == 0
    assert got == [(a, "ZDT1")], got
""")
