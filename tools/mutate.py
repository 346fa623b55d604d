"""mutate.py OUT [PROP…] [--n N] [--jobs J] [--seed S] : small syntactic changes to the functions each property is anchored in,
run against the property's check in a scratch copy; survivors are written to OUT for triage (equivalent or missed)."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time, argparse
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DT = "algorithms/base/drivertools.py"
T = {
 "C01": [("evotools/ea_utils.py", ["domination_cmp", "dominates"]), ("algorithms/NSGAII/NSGAII.py", ["dominates"]), ("algorithms/SPEA2/SPEA2.py", ["SPEA2.dominates"]), ("algorithms/OMOPSO/OMOPSO.py", ["Individual.dominates"]), ("algorithms/NSGAIII/NSGAIII.py", ["dominates"])],
 "C02": [("metrics/metrics_utils.py", ["filter_not"]), ("algorithms/BOGO/BOGO.py", ["BOGO.refresh_archive"]), ("algorithms/OMOPSO/OMOPSO.py", ["Archive.", "LeaderArchive.", "Individual."])],
 "C03": [("evotools/ea_utils.py", ["paretofront_layers"]), (DT, ["rank"]), ("algorithms/NSGAII/NSGAII.py", ["_nd_sort"]), ("algorithms/SMSEMOA/SMSEMOA.py", ["nd_sort"]), ("algorithms/NSGAIII/NSGAIII.py", ["theta_non"]), ("algorithms/NSLS/NSLS.py", ["nd_sort"])],
 "C04": [(DT, ["mutate", "crossover", "get_beta"]), ("algorithms/NSGAIII/NSGAIII.py", ["simulated", "polynomial"]), ("algorithms/OMOPSO/OMOPSO.py", ["move", "Mutation"]), ("algorithms/NSLS/NSLS.py", ["local_search"]), ("evotools/ea_utils.py", ["gen_population"]), ("algorithms/HGS/tools.py", ["population_from"]), ("algorithms/HGS/classic/ClassicHGS.py", ["population_from"])],
 "C05": [("algorithms/NSGAII/NSGAII.py", ["_environmental", "_crowding"]), ("algorithms/NSGAIII/NSGAIII.py", ["create_final"]), ("algorithms/NSLS/NSLS.py", ["next_generation"]), ("algorithms/SPEA2/SPEA2.py", ["environmental", "domination", "fitness"]), ("algorithms/IBEA/IBEA.py", ["_environmental", "_calculate"]), ("algorithms/SMSEMOA/SMSEMOA.py", ["reduce"]), ("algorithms/OMOPSO/OMOPSO.py", ["LeaderArchive.prune", "crowd"])],
 "C06": [("algorithms/base/hv.py", None)],
 "C07": [("metrics/metrics_utils.py", None), ("metrics/epsilon.py", None), ("metrics/metrics.py", None)],
 "C08": [("algorithms/%s/%s.py" % (a, a), ["calculate_obj", "step", "_scale", "ResultArchive", "finalize", "__init__", "get_cost"]) for a in ("NSGAII", "NSGAIII", "NSLS", "BOGO", "SPEA2", "OMOPSO", "SMSEMOA", "IBEA")] + [("algorithms/HGS/tools.py", ["ResultArchive"])],
 "C09": [("algorithms/base/driver.py", None), ("algorithms/base/model.py", None), ("simulation/worker.py", None)],
 "C10": [("simulation/serializer.py", None), ("simulation/serialization.py", None), ("simulation/model.py", None)],
 "C11": [("algorithms/IMGA/IMGA.py", None), ("algorithms/IMGA/topology.py", None), ("algorithms/IMGA/message.py", None), ("algorithms/SPEA2/message.py", None), ("algorithms/SMSEMOA/message.py", None), ("algorithms/OMOPSO/message.py", None), ("evotools/random_tools.py", ["weighted"])],
 "C12": [("algorithms/HGS/classic/ClassicHGS.py", None), ("algorithms/HGS/HGS.py", None)],
 "C13": [("algorithms/HGS/tools.py", ["trim"]), ("algorithms/HGS/classic/ClassicHGS.py", ["trim_v", "trim_m"])],
 "C14": [("simulation/factory.py", None), ("evotools/ea_utils.py", ["gen_population"])],
 "C15": [("statistic/stats_bootstrap.py", None), ("statistic/ranking.py", ["get_weak", "best_func", "tech"])],
 "C16": [("problems/%s/problem.py" % p, None) for p in "ZDT1 ZDT2 ZDT3 ZDT4 ZDT6 UF1 UF2 UF3 UF4 UF5 UF6 UF7 UF8 UF9 UF10 kursawe ackley".split()],
 "C17": [("simulation/metrics_processor.py", None), ("metrics/metrics_utils.py", ["pareto_dom"])],
 "C18": [("algorithms/HGS/distributed/hgs_tasks.py", None), ("algorithms/HGS/distributed/node_tasks.py", None), ("algorithms/HGS/distributed/actors.py", None), ("algorithms/HGS/distributed/DistributedHGS.py", None)],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}


def sites(tree, names):
    """(path to node, kind, variant) for every mutation site inside the selected functions"""
    out = []

    def visit(node, q, inside):
        for ch in ast.iter_child_nodes(node):
            ch._parent = node
            qq, ins = q, inside
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                qq = (q + "." if q else "") + ch.name
                ins = inside or names is None or any(n in qq for n in names)
            if ins or (names is None and not isinstance(ch, (ast.Import, ast.ImportFrom))):
                out.extend(ops(ch, qq))
            visit(ch, qq, ins)
    visit(tree, "", False)
    return out


def log_call(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging", "log_helper", "plt") or n.func.attr in ("debug", "info", "warning")) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print"


def ops(n, q):
    r = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        r += [(n, "cmp", v, q) for v in CMP.get(type(n.ops[0]), [])]
    elif isinstance(n, (ast.BinOp, ast.AugAssign)):
        if isinstance(getattr(n, "left", None), ast.Constant) and isinstance(n.left.value, str):
            return r
        r += [(n, "bin", v, q) for v in BIN.get(type(n.op), [])]
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
        r += [(n, "const", n.value + 1, q), (n, "const", n.value - 1, q)]
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
        r += [(n, "const", not n.value, q)]
    elif isinstance(n, ast.BoolOp):
        r += [(n, "bool", None, q)]
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        r += [(n, "unop", None, q)]
    elif isinstance(n, (ast.If, ast.IfExp)):
        r += [(n, "negif", None, q)]
    elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all") and isinstance(n.ctx, ast.Load):
        r += [(n, "name", {"min": "max", "max": "min", "any": "all", "all": "any"}[n.id], q)]
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)):
        if isinstance(n, ast.Expr) and (isinstance(n.value, (ast.Constant, ast.Yield)) or log_call(n.value)):
            return r
        r += [(n, "del", None, q)]
    if isinstance(n, ast.AugAssign):
        r += [(n, "del", None, q)]
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not log_call(n) and isinstance(n.func, (ast.Name, ast.Attribute)):
        r += [(n, "swap", None, q)]
    return r


def apply(n, kind, v):
    if kind == "cmp":
        n.ops[0] = v()
    elif kind == "bin":
        n.op = v()
    elif kind == "const":
        n.value = v
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "unop":
        repl(n, n.operand)
    elif kind == "negif":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "name":
        n.id = v
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "del":
        repl(n, ast.Pass())


def repl(n, new):
    p = n._parent
    for f, val in ast.iter_fields(p):
        if val is n:
            setattr(p, f, new)
            return
        if isinstance(val, list):
            for i, x in enumerate(val):
                if x is n:
                    val[i] = new
                    return


def mutants(prop, n, seed):
    rng = random.Random("%s/%s" % (prop, seed))
    allm = []
    for f, names in T[prop]:
        src = open("/repo/" + f).read()
        k = len(sites(ast.parse(src), names))
        allm += [(f, names, i) for i in range(k)]
    rng.shuffle(allm)
    for f, names, i in allm[:n]:
        src = open("/repo/" + f).read()
        t = ast.parse(src)
        node, kind, v, q = sites(t, names)[i]
        line = node.lineno
        apply(node, kind, v)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, f, "exec")
        except Exception:
            continue
        base = ast.unparse(ast.parse(src))
        import difflib
        d = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        yield dict(prop=prop, file=f, func=q, line=line, kind=kind, diff=d, new=new)


def run(m):
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run("git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t %s)" % w, shell=True, check=True)
        open(os.path.join(w, m["file"]), "w").write(m["new"])
        t = time.time()
        p = subprocess.run(["python3-vt", VERIF_RUN + "/check.py", m["prop"], "quick"], cwd=VERIF_RUN, capture_output=True, text=True,
                           env=dict(os.environ, PYDV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        m["verdict"] = "survived" if not v else ("obligation" if v[0].endswith("found") else "concrete")
        m["oblig"] = any(l.startswith("failed obligation") for l in p.stdout.splitlines())
        m["rc"], m["s"] = p.returncode, round(time.time() - t)
        m["tail"] = p.stdout[-600:] if not v else ""
    finally:
        shutil.rmtree(w, ignore_errors=True)
    del m["new"]
    open(OUT, "a").write(json.dumps(m) + "\n")


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("props", nargs="*")
    a.add_argument("--n", type=int, default=20)
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--seed", default="0")
    a.add_argument("--verif", default=VERIF)
    a = a.parse_args()
    OUT, VERIF_RUN = a.out, a.verif
    ms = [m for p in (a.props or sorted(T)) for m in mutants(p, a.n, a.seed)]
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(run, ms))
