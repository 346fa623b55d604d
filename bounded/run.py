"""run.py PROP SEED BUDGET TIER [ONLY] - executable contracts evaluated on the real code (cwd: the repository).
Bounded stand-in / replay layer: never counted as proof."""
import sys, os, json, time, random, traceback, importlib, logging, types, io, contextlib, copy, math, signal, resource

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
if os.getcwd() not in sys.path:
    sys.path.insert(1, os.getcwd())


class Skip(Exception):
    pass


class Failure(Exception):
    pass


class Hang(Exception):
    """the code used more processor time than any correct run needs"""


CALL_CPU, CHECK_CPU = 15.0, 30.0    # seconds of processor time: one call; one check beyond its share of the budget
LIMIT = []      # processor time at which the innermost running call or check is given up


def cpu():
    return time.process_time()


def arm():
    signal.setitimer(signal.ITIMER_PROF, max(min(LIMIT) - cpu(), 0.01) if LIMIT else 0)


def on_prof(*a):
    raise Hang("no result after %.0f s of processor time" % cpu())


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        LIMIT.append(cpu() + self.seconds)
        arm()

    def __exit__(self, *a):
        LIMIT.pop()
        arm()


class Box:
    """one run of one check"""

    def __init__(self, name, seed, deadline, tier):
        self.name, self.deadline, self.tier = name, deadline, tier
        self.seed = seed
        self.rng = random.Random("%s/%s" % (name, seed))
        self.cases = 0
        self.keys = set()
        self.failures = []
        self.samples = []
        self.maxfail = 3
        self.hung = False

    # ---- budget
    def more(self):
        return time.time() < self.deadline and len(self.failures) < self.maxfail and not self.hung

    def loop(self, quick, thorough=None):
        """iterate at most quick (thorough) times and not past the deadline"""
        n = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 20)
        for i in range(n):
            if not self.more():
                break
            yield i

    # ---- recording
    def case(self, key=None):
        self.cases += 1
        if len(self.keys) < 200000:
            self.keys.add(hash(repr(key)) if key is not None else self.cases)
        if len(self.samples) < 2 and key is not None:
            self.samples.append(repr(key)[:300])

    def fail(self, inp, detail, signature=None):
        if len(self.failures) < self.maxfail:
            self.failures.append(dict(check=self.name, input=repr(inp)[:2000], detail=str(detail)[:1500],
                                      signature=signature or repr(inp)[:300]))

    def expect(self, cond, inp, detail, signature=None):
        if not cond:
            self.fail(inp, detail() if callable(detail) else detail, signature)
        return cond

    # ---- access to the code under test
    def get(self, dotted):
        mod, _, qual = dotted.partition(":")
        try:
            m = importlib.import_module(mod)
        except ImportError as ex:
            if not source_exists(mod):
                raise Skip("no module %s" % mod)
            raise
        o = m
        for part in qual.split(".") if qual else []:
            if not hasattr(o, part):
                raise Skip("no %s" % dotted)
            o = getattr(o, part)
        return o

    def opt(self, dotted):
        try:
            return self.get(dotted)
        except Skip:
            return None

    def run(self, inp, fn, *a, **k):
        """call the code; an exception is a failure of the contract ('never fails')"""
        try:
            with limit(CALL_CPU * (4 if self.tier == "thorough" else 1)):
                return True, fn(*a, **k)
        except Skip:
            raise
        except (Hang, MemoryError) as ex:
            self.hung = True
            self.fail(inp, "does not terminate: %r" % (ex,), "hang")
            return False, None
        except Exception as ex:
            self.fail(inp, "raised " + "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-900:])
            return False, None


def source_exists(mod):
    p = mod.replace(".", "/")
    return os.path.exists(p + ".py") or os.path.isdir(p)


def stub_scipy():
    try:
        import scipy.spatial.distance  # noqa
    except ImportError:
        s = types.ModuleType("scipy")
        sp = types.ModuleType("scipy.spatial")
        d = types.ModuleType("scipy.spatial.distance")
        d.euclidean = lambda u, v: math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
        s.spatial, sp.distance = sp, d
        sys.modules.update({"scipy": s, "scipy.spatial": sp, "scipy.spatial.distance": d})


def main():
    prop, seed, budget, tier = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    logging.disable(logging.CRITICAL)
    stub_scipy()
    out = dict(checks=[], failures=[], samples=[], skipped=[])
    signal.signal(signal.SIGPROF, on_prof)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    real_stdout = os.fdopen(os.dup(1), "w")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        mod = importlib.import_module(prop.lower())
    except ImportError as ex:
        if ("No module named '%s'" % prop.lower()) in str(ex):
            out["skipped"].append("no bounded checks for this property")
            real_stdout.write("@@RESULT " + json.dumps(out) + "\n")
            real_stdout.flush()
            os._exit(0)
        raise
    checks = [(n, f) for n, f in mod.CHECKS if only is None or only == n]
    t0 = time.time()
    end = t0 + budget
    for k, (name, fn) in enumerate(checks):
        left = end - time.time()
        share = max(left, 2.0) / (len(checks) - k)
        b = Box(name, seed, time.time() + min(max(share, 1.0), getattr(fn, "max_s", 1e9) if tier == "quick" else 1e9), tier)
        tc = time.time()
        st = random.getstate()
        cwd = os.getcwd()
        try:
            random.seed(seed * 7919 + k)
            with limit(max(share, 1.0) + CHECK_CPU * (4 if tier == "thorough" else 1)):
                fn(b)
        except (Hang, MemoryError) as ex:
            b.fail("harness or code", "does not terminate: %r" % (ex,), "hang")
        except Skip as ex:
            out["skipped"].append("%s: %s" % (name, ex))
        except Exception as ex:
            b.fail("harness or code", "unexpected " + "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-1200:], "exception:" + type(ex).__name__)
        finally:
            os.chdir(cwd)
            random.setstate(st)
        out["checks"].append(dict(name=name, cases=b.cases, distinct=len(b.keys), seconds=round(time.time() - tc, 2)))
        out["failures"] += b.failures
        out["samples"] += [dict(check=name, input=s) for s in b.samples[:1]]
        real_stdout.write("@@RESULT " + json.dumps(out) + "\n")
        real_stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
