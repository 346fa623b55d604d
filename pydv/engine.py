"""Symbolic interpreter for the Python subset evogil is written in.

It runs the *real* ASTs of /repo.  Calls to functions under contract use the contract; other /repo functions are
inlined (so an extracted helper needs no annotation).  Loops over sequences of symbolic length go through the
rules of loops.py; loops over sequences of known length are unrolled completely.
"""
import warnings
import ast, os, itertools
import z3
from fractions import Fraction
from .values import *
from . import solve
from .solve import Axioms, Obligation, check
from . import symmap
from .symmap import Heap, GONE, CellAddr

REPO = os.environ.get("PYDV_REPO", "/repo")
EPS = Fraction(1, 2 ** 52)


DICTEQ = z3.Function("same contents", z3.IntSort(), z3.IntSort(), z3.BoolSort())


PARENTS = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "ZeroDivisionError": ("ArithmeticError",), "FloatingPointError": ("ArithmeticError",), "OverflowError": ("ArithmeticError",),
           "FileNotFoundError": ("OSError", "IOError", "EnvironmentError"), "FileExistsError": ("OSError", "IOError", "EnvironmentError"), "IsADirectoryError": ("OSError", "IOError", "EnvironmentError"),
           "NotADirectoryError": ("OSError", "IOError", "EnvironmentError"), "PermissionError": ("OSError", "IOError", "EnvironmentError"), "OSError": ("IOError", "EnvironmentError"), "IOError": ("OSError",)}


def exc_match(exc, names):
    """is an exception of that class caught by a handler for these classes?"""
    return exc in names or "Exception" in names or "BaseException" in names or any(p in names for p in PARENTS.get(exc, ()))


class State:
    __slots__ = ("frames", "cur", "heap", "pc", "facts", "handlers", "trace")

    def __init__(self):
        self.frames, self.cur, self.heap, self.pc, self.facts = {}, None, Heap(), [], []
        self.handlers = ()
        self.trace = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur = self.cur
        s.heap = Heap(self.heap)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.handlers = self.handlers
        s.trace = self.trace
        return s

    def assume(self, c):
        if c is True:
            return self
        if c is False:
            self.pc.append(z3.BoolVal(False))
        else:
            self.pc.append(c)
        return self

    def dead(self):
        return any(z3.is_false(c) for c in self.pc if is_z3(c))

    def var(self, name):
        return self.frames[self.cur].get(name)


class Broken:
    def __init__(self, why):
        self.why = why


def solve_decls(t):
    acc = set()
    from .solve import decls
    decls(t, acc, set())
    return acc


class BigOps:
    """closed forms for sums and extrema over symbolic ranges, axiomatised by their inductive definition.

    The summand is abstracted: every maximal sub-term without the bound index becomes a parameter of the operator's
    function symbol, so equal shapes share one symbol (and there is no free variable left in the axioms)."""

    def __init__(self, eng):
        self.eng = eng
        self.cache = {}
        self.info = {}      # symbol name -> dict(kind, f, e, bs, cond)
        self.K = z3.Int("K!")
        self.n = 0
        self.seen_sums = []

    def _abstract(self, e, i):
        e = z3.substitute(e, (i, self.K)) if is_z3(i) else e
        e = z3.simplify(e)
        hasK, hasV = {}, {}

        def scan(t):
            key = t.get_id()
            if key in hasK:
                return
            if z3.is_quantifier(t):
                scan(t.body())
                hasK[key], hasV[key] = hasK[t.body().get_id()], True
            elif z3.is_var(t):
                hasK[key], hasV[key] = False, True
            else:
                k, v = z3.eq(t, self.K), False
                for c in t.children():
                    scan(c)
                    k = k or hasK[c.get_id()]
                    v = v or hasV[c.get_id()]
                hasK[key], hasV[key] = k, v

        scan(e)
        params, seen = [], set()

        def collect(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                collect(t.body())
                return
            if z3.is_var(t):
                return
            if not hasK[t.get_id()] and not hasV[t.get_id()]:
                if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                    return
                params.append(t)
                return
            for c in t.children():
                collect(c)

        collect(e)
        bs = [z3.Const("P%d!%s" % (j, p.sort().name()), p.sort()) for j, p in enumerate(params)]
        e2 = z3.substitute(e, *zip(params, bs)) if params else e
        return e, e2, params, bs, hasK[e.get_id()]

    def _mk(self, kind, e2, bs, cond=None):
        key = (kind, e2.get_id(), tuple(b.get_id() for b in bs), cond.get_id() if is_z3(cond) else cond)
        if key in self.cache:
            return self.cache[key]
        self.n += 1
        nm = "%s%d!" % (kind.upper(), self.n)
        sort = e2.sort()
        f = z3.Function(nm, *([z3.IntSort()] + [b.sort() for b in bs] + [sort]))
        m, k = z3.Int("m!%s" % nm), z3.Int("k!%s" % nm)
        q = [m] + bs
        at = lambda t, x=e2: z3.substitute(x, (self.K, t))
        ax = self.eng.ax
        steps = []
        if kind == "sum":
            zero = z3.IntVal(0) if sort == z3.IntSort() else z3.RealVal(0)
            base = f(*([z3.IntVal(0)] + bs)) == zero
            ax.add([nm], z3.ForAll(bs, base, patterns=[f(*([z3.IntVal(0)] + bs))]) if bs else base)
            steps = [z3.ForAll(q, z3.Implies(m >= 0, f(*([m + 1] + bs)) == f(*q) + at(m)), patterns=[f(*([m + 1] + bs))])]
        else:
            w = z3.Function(nm + "w", *([z3.IntSort()] + [b.sort() for b in bs] + [z3.IntSort()]))
            le = (lambda x, y: x <= y) if kind.startswith("max") else (lambda x, y: x >= y)
            c = (lambda t: at(t, cond)) if cond is not None else (lambda t: z3.BoolVal(True))
            W = w(*q)
            if cond is None:
                ax.add([nm], z3.ForAll(q, z3.Implies(m >= 1, z3.And(W >= 0, W < m, f(*q) == at(W))), patterns=[f(*q)]))
                ax.add([nm], self._bound(q, m, k, f, at, le, None))
            else:
                ax.add([nm], z3.ForAll(q + [k], z3.Implies(z3.And(0 <= k, k < m, c(k)), z3.And(W >= 0, W < m, c(W), f(*q) == at(W), le(at(k), f(*q))))))
        self.cache[key] = nm
        self.info[nm] = dict(kind=kind, f=f, e=e2, bs=bs, cond=cond, steps=steps, sort=sort)
        self.eng.keep.append((e2, bs, cond))
        return nm

    def _bound(self, q, m, k, f, at, le, c):
        return z3.ForAll(q + [k], z3.Implies(z3.And(0 <= k, k < m), le(at(k), f(*q))))

    def _pick(self, e2, params, bs):
        """sum of (k == p ? a : b) with a, b independent of k: one term differs"""
        if not (z3.is_app(e2) and e2.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, a, b = e2.children()
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        if not z3.is_eq(c):
            return None
        x, y = c.children()
        if z3.eq(y, self.K):
            x, y = y, x
        has = lambda t: self.K.decl().name() in solve_decls(t)
        if not z3.eq(x, self.K) or has(y) or has(a) or has(b):
            return None
        back = list(zip(bs, params))
        y, a, b = [z3.substitute(t, *back) if back else t for t in (y, a, b)]
        return lambda m: add(mul(conc(b), m), ite(z3.And(0 <= y, y < toz(m)), conc(z3.simplify(a - b)), 0))

    def _known(self, e1, e2, params, bs):
        """a summand that equals an earlier one whatever the values is written like that one"""
        key = ("e", e1.get_id())
        if key in self.cache:
            return self.cache[key]
        res = (e1, e2, params, bs)
        if z3.is_app(e1) and e1.decl().kind() == z3.Z3_OP_ITE:
            names = frozenset(solve_decls(e1))
            for n2, sort, old in self.seen_sums[-30:]:
                if n2 == names and sort == e1.sort():
                    s = z3.Solver()
                    s.set("timeout", 100)
                    s.add(e1 != old[0])
                    if s.check() == z3.unsat:
                        res = old
                        break
            else:
                self.seen_sums.append((names, e1.sort(), res))
        self.cache[key] = res
        self.eng.keep.append((e1, res))
        return res

    def sum(self, e, i, what="S"):
        """closed(m) = sum_{k<m} e[i:=k]"""
        e = num(e)
        if not is_z3(e):
            return lambda m: mul(e, m)
        e1, e2, params, bs, hask = self._abstract(e, i)
        if not hask:
            return lambda m: mul(conc(e1), m)
        pick = self._pick(e2, params, bs)
        if pick is not None:
            return pick
        e1, e2, params, bs = self._known(e1, e2, params, bs)
        nm = self._mk("sum", e2, bs)
        f = self.info[nm]["f"]

        def cf(m):
            m = conc(m)
            if isinstance(m, int) and m <= 0:
                return 0
            return f(*([toz(m)] + params))
        return cf

    def ext(self, e, i, mode, cond=None):
        """closed(m) = max/min_{k<m, cond} e[i:=k] (meaningful when the range is not empty)"""
        e = num(e)
        if cond is True:
            cond = None
        if not is_z3(e):
            if cond is None:
                return lambda m: e
            e = toz(e)
        if cond is None:
            e1, e2, params, bs, hask = self._abstract(e, i)
            if not hask:
                return lambda m: conc(e1)
            nm = self._mk(mode, e2, bs)
        else:
            # abstract both together (as a pair inside one term)
            t = z3.If(toz(cond), toreal(e) if not e.is_int() else e, self._mark(e))
            e1, e2, params, bs, hask = self._abstract(t, i)
            if not (z3.is_app(e2) and e2.decl().kind() == z3.Z3_OP_ITE):
                raise Unsupported("conditional extremum")
            c2, x2, y2 = e2.arg(0), e2.arg(1), e2.arg(2)
            if not z3.eq(y2, self._mark(e)) and not (z3.is_const(y2)):
                c2, x2 = z3.Not(c2), y2
            if any(z3.eq(p, self._mark(e)) for p in params):
                # the marker itself became a parameter: drop it
                j = [z3.eq(p, self._mark(e)) for p in params].index(True)
                if z3.eq(x2, bs[j]):
                    c2, x2 = z3.Not(c2), y2
                params = params[:j] + params[j + 1:]
                bs = bs[:j] + bs[j + 1:]
            nm = self._mk(mode + "c", x2, bs, c2)
        f = self.info[nm]["f"]
        return lambda m: f(*([toz(m)] + params))

    def _mark(self, e):
        return z3.Const("mark!%s" % e.sort().name(), e.sort())

    # -------------------------------------------------------------- lemmas instantiated per query
    def apps(self, fs):
        out, seen = [], set()
        stack = [f for f in fs if is_z3(f)]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x):
                if x.decl().name() in self.info:
                    out.append(x)
                stack.extend(x.children())
        return out


class Engine:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.ax = Axioms()
        self.bigops = BigOps(self)
        self.index_consts = []   # loop index constants (skolemisation context is the active ones)
        self.ctx = []            # active loop indices
        self.obls = []
        self.contracts = {}
        self.spec_objs = set()
        self.inv_timeout = 4000
        self.inline_depth = 0
        self.counter = itertools.count()
        self.while_limit = 60
        self.inv_cands = []
        self.inv_log = []
        self.loop_inv = None
        self.inv_for = False
        self.inv_stack = []
        self.value_dicts = {}    # (class, attribute) -> the keys: dictionaries of per-objective values kept as sequences
        self.own_lists = []      # per such loop: the locations bound to a new list in each iteration
        self.inv_phase = None    # what a candidate is evaluated for: entry, head or end
        self.on_append = None
        self.on_remove = None
        self.dropped_tags = set()
        self.inv_dropped = set()
        self.inv_seen = []
        self.list_elem = None
        self.hint_loops = {}
        self.keep = []
        self.raised = [[]]
        self.hints = {}
        self.fieldmaps = {}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.unroll_limit = 400
        self.path_limit = 3000
        self.current = ""
        self.feas_cache = {}
        self.feas_timeout = 400
        from .builtins_model import install
        install(self)

    # ------------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        n = "%s!%d" % (name, next(self.counter))
        if self.ctx:
            f = z3.Function(n, *([z3.IntSort()] * len(self.ctx) + [sort]))
            return f(*self.ctx)
        return z3.Const(n, sort)

    def fresh_fun(self, name, nargs, ret=None):
        n = "%s!%d" % (name, next(self.counter))
        ctx = list(self.ctx)
        f = z3.Function(n, *([z3.IntSort()] * (nargs + len(ctx)) + [ret if ret is not None else z3.IntSort()]))
        return lambda *a: f(*([toz(x) for x in a] + ctx))

    def loop_hint(self, node):
        return self.hint_loops.get(id(node))

    def fresh_index(self, name="i"):
        c = z3.Int("%s!%d" % (name, next(self.counter)))
        self.index_consts.append(c)
        return c

    def fresh_real(self, name="r"):
        return self.fresh(name, z3.RealSort())

    def fresh_int(self, name="n"):
        return self.fresh(name, z3.IntSort())

    def fact(self, st, f):
        if f is not True:
            st.facts.append(f)

    def hyps(self, st):
        return list(st.facts) + list(st.pc)

    def alloc(self, st, obj):
        a = next(self.counter)
        st.heap[a] = obj
        return a

    def new_list(self, st, seq):
        if not isinstance(seq, Seq):
            seq = Seq.lit(seq)
        return ListRef(self.alloc(st, HeapList(seq)))

    def seq_of(self, v, st):
        """Seq view of a list-like value"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq.lit(v)
        if isinstance(v, (DictRef,)):
            d = st.heap[v.addr]
            if d.fmap is not None:
                if "n" in d.fmap:
                    return Seq(d.fmap["n"], d.fmap["key"])
                m = symmap.smap(d)
                if m is not None and m.kc is not None:
                    return symmap.enumerate_set(self, st, symmap.SetV(m.kc, m.has))
                raise Unsupported("iterate symbolic dict")
            return Seq.lit([k for k, _ in d.items])
        if isinstance(v, SetRef):
            h = st.heap[v.addr]
            return Seq.lit(h.items) if h.mem is None else symmap.enumerate_set(self, st, symmap.SetV(h.cls, h.mem))
        if isinstance(v, ListRef):
            return st.heap[v.addr].seq
        if isinstance(v, str):
            return Seq.lit(list(v))
        raise Unsupported("not iterable: %r" % type(v).__name__)

    def feasible(self, st, cond=None):
        """cheap pruning of dead paths (quantifier-free part only)"""
        fs = [c for c in self.hyps(st) if is_z3(c)]
        if cond is not None:
            if isinstance(cond, bool):
                if not cond:
                    return False
            else:
                fs.append(cond)
        if any(z3.is_false(f) for f in fs):
            return False
        fs = [f for f in fs if not self._hasq(f)]
        key = frozenset(f.get_id() for f in fs)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        r, _ = check(fs, timeout=self.feas_timeout)
        self.feas_cache[key] = (r != z3.unsat, fs)
        return r != z3.unsat

    def _hasq(self, f):
        k = f.get_id()
        if not hasattr(self, "_hq"):
            self._hq = {}
        if k not in self._hq:
            self._hq[k] = (solve.has_quant(f), f)
        return self._hq[k][0]

    def entails(self, st, goal, timeout=2000, extra=()):
        if isinstance(goal, bool):
            return goal
        fs = self.hyps(st) + list(extra) + [Not(goal)]
        fs = self.ax.relevant(fs) + fs
        r, _ = check(fs, timeout=timeout)
        return r == z3.unsat

    def prove(self, hyps, goal, timeout=3000):
        from .solve import prove
        return prove(self, hyps, goal, timeout)[0] == "proved"

    def oblige(self, st, name, goal, node=None):
        goal = goal if is_z3(goal) or isinstance(goal, bool) else goal
        if goal is True:
            return
        where = ""
        if node is not None and hasattr(node, "lineno"):
            where = "line %d" % node.lineno
        self.obls.append(Obligation(name, self.hyps(st), goal, where, self.current))

    def safety(self, st, cond, exc, node):
        """operation requires cond, else raises exc.  Returns False if the path is dead."""
        if cond is True:
            return True
        handled = any(exc_match(exc, h) for h in st.handlers)
        if handled:
            s2 = st.copy()
            s2.assume(Not(cond))
            if cond is False or self.feasible(s2):
                self.raised[-1].append((s2, exc))
            st.assume(cond)
            return cond is not False
        self.oblige(st, "no %s" % exc, cond, node)
        st.assume(cond)
        return cond is not False

    def raise_(self, st, exc):
        self.raised[-1].append((st, exc))

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            m = ModuleVal(name)
            m.external = True
            self.modules[name] = m
            return m
        m = ModuleVal(name)
        m.external = False
        m.path = path
        self.modules[name] = m
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", SyntaxWarning)
            tree = ast.parse(open(path, encoding="utf-8").read())
        m.tree = tree
        m.env["__name__"] = name
        m.pending = {}
        st = State()
        fid = next(self.counter)
        m.frame = fid
        st.frames[fid] = m.env
        st.cur = fid
        m.heap = Heap()
        for node in tree.body:
            self._module_stmt(m, node)
        return m

    def _module_stmt(self, m, node):
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            self._import(m, node)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.env[node.name] = self.make_func(node, m, None)
        elif isinstance(node, ast.ClassDef):
            m.pending[node.name] = node
        elif isinstance(node, ast.Assign) or isinstance(node, ast.AnnAssign) or isinstance(node, (ast.With, ast.AugAssign, ast.For)):
            for t in ast.walk(node):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    m.pending.setdefault(t.id, node)
                    m.env.pop(t.id, None)
            if isinstance(node, ast.Assign):
                for t in node.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            m.pending[x.id] = node

    def _import(self, m, node):
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name.split(".")[0]
                if a.asname:
                    m.env[a.asname] = ("module", a.name)
                else:
                    m.env[top] = ("module", top)
        else:
            for a in node.names:
                m.env[a.asname or a.name] = ("from", node.module, a.name)

    def make_func(self, node, module, frame, cls=None):
        f = PyFunc(node, module, frame, node.name, cls)
        for d in node.decorator_list:
            t = ast.unparse(d)
            if t == "staticmethod":
                f.is_static = True
            elif t == "property":
                f.is_property = True
            elif t.endswith(".setter"):
                f.is_setter = True
            elif t == "classmethod":
                f.is_classmethod = True
            elif not t.endswith("abstractmethod"):
                f.decorated = t
        return f

    def make_class(self, node, module, st=None, outer=None):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.ev1(b, st or self.module_state(module)))
            except Unsupported:
                bases.append(Opaque("base"))
        c = ClassVal(node.name if outer is None else outer + "." + node.name, module, bases, {}, node)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_func(s, module, None, c)
                if f.is_setter:
                    c.attrs["set:" + s.name] = f
                else:
                    c.attrs[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c.attrs[s.name] = self.make_class(s, module, st, c.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        try:
                            if isinstance(s.value, ast.Call) and not s.value.args:
                                f = self.ev1(s.value.func, st or self.module_state(module))
                                if isinstance(f, Builtin) and f.name == "enum.auto":
                                    # a member of an enumeration: equal to itself only
                                    c.attrs[t.id] = Opaque("enum:%s.%s" % (c.name, t.id))
                                    continue
                            c.attrs[t.id] = self.ev1(s.value, st or self.module_state(module))
                        except Unsupported:
                            c.attrs[t.id] = Opaque("classattr")
        return c

    def module_state(self, m):
        st = State()
        st.frames[m.frame] = m.env
        st.cur = m.frame
        st.heap = m.heap
        return st

    def module_get(self, m, name, st=None):
        if name in m.env:
            v = m.env[name]
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "module":
                v = self.load(v[1])
                m.env[name] = v
            elif isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "from":
                mod = self.load(v[1])
                v = self.module_attr(mod, v[2], st)
                m.env[name] = v
            return self._absorb(v, m, st)
        if not getattr(m, "external", True) and name in m.pending:
            node = m.pending[name]
            if isinstance(node, ast.ClassDef):
                m.env[name] = self.make_class(node, m)
                return m.env[name]
            # run the defining statement(s) at module level
            ms = self.module_state(m)
            stmts = [n for n in m.tree.body if n is node or (isinstance(n, (ast.Assign, ast.AugAssign, ast.With, ast.For))
                     and any(isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id == name for t in ast.walk(n)))]
            for n in stmts:
                for t in ast.walk(n):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and m.pending.get(t.id) is n:
                        pass
            saved_pending = m.pending.pop(name)
            save = (self.ctx, self.raised)
            self.ctx = []
            self.raised = [[]]
            try:
                for n in stmts:
                    outs = self.exec_stmt(n, ms)
                    if len(outs) != 1 or outs[0][1] is not None:
                        raise Unsupported("module level control flow")
                    ms = outs[0][0]
            except Unsupported:
                m.pending[name] = saved_pending
                raise
            finally:
                self.ctx, self.raised = save
            for k, v in ms.frames[m.frame].items():
                m.env[k] = v
            m.heap.update(ms.heap)
            m.facts = getattr(m, "facts", []) + ms.facts
            if name not in m.env:
                raise Unsupported("module name %s" % name)
            return self._absorb(m.env[name], m, st)
        raise Unsupported("unknown name %s.%s" % (m.name, name))

    def _absorb(self, v, m, st):
        """module-level objects live in the module heap; make them visible in st"""
        if st is not None and not getattr(m, "external", True) and st.heap is not m.heap:
            for a, o in m.heap.items():
                if a not in st.heap:
                    st.heap[a] = o
            for f in getattr(m, "facts", []):
                if not any(f is g for g in st.facts):
                    st.facts.append(f)
        return v

    def module_attr(self, m, attr, st=None):
        if getattr(m, "external", True):
            sub = m.name + "." + attr
            if m.name + "." + attr in ("numpy.linalg", "rx.operators", "rx.scheduler", "numpy.math"):
                return self.load("math" if sub == "numpy.math" else sub)
            return self.external(sub)
        try:
            return self.module_get(m, attr, st)
        except Unsupported:
            p = os.path.join(self.repo, *(m.name + "." + attr).split("."))
            if os.path.exists(p + ".py") or os.path.isdir(p):
                return self.load(m.name + "." + attr)
            raise

    def external(self, dotted):
        if dotted in self.consts:
            v = self.consts[dotted]
            return v() if callable(v) else v
        return Builtin(dotted)

    def get(self, dotted, st=None):
        """function/class object of /repo by 'module:qual'"""
        mod, qual = dotted.split(":")
        m = self.load(mod)
        if getattr(m, "external", True):
            raise Unsupported("no module %s" % mod)
        cur = None
        for k, part in enumerate(qual.split(".")):
            if k == 0:
                cur = self.module_get(m, part, st)
            else:
                if not isinstance(cur, ClassVal) or cur.lookup(part)[0] is None:
                    raise Unsupported("no %s" % dotted)
                cur = cur.lookup(part)[0]
        return cur

    # ------------------------------------------------------------------ evaluation
    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1:
            raise Unsupported("forking expression")
        return r[0][1]

    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expr %s" % type(e).__name__)
        return m(e, st)

    def ev_list(self, es, st):
        """evaluate several expressions left to right -> [(st, [vals])]"""
        out = [(st, [])]
        for e in es:
            new = []
            for s, vs in out:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        sq = self.seq_of(v, s2)
                        if not sq.is_lit:
                            raise Unsupported("star of symbolic list")
                        new.append((s2, vs + list(sq.items())))
                else:
                    for s2, v in self.ev(e, s):
                        new.append((s2, vs + [v]))
            out = new
        return out

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            if v in (INF, NINF):
                return [(st, v)]
            try:
                f = v
                v = Fraction(repr(f))
                if len(repr(f).split("e")[0].replace(".", "").replace("-", "").lstrip("0")) >= 15:
                    # a literal written to full precision denotes the simplest fraction that rounds to it
                    q = Fraction(f).limit_denominator(10 ** 6)
                    if float(q) == f:
                        v = q
                        self.trusted.add("a float literal written to full precision denotes the simplest fraction that rounds to it")
            except ValueError:
                v = Fraction(v)
        return [(st, v)]

    def ev_JoinedStr(self, e, st):
        out = [(st, "")]
        for part in e.values:
            new = []
            for s, acc in out:
                if isinstance(part, ast.Constant):
                    new.append((s, scat(acc, part.value) if is_str(acc) else acc))
                else:
                    for s2, v in self.ev(part.value, s):
                        spec = None
                        if part.format_spec is not None:
                            fs = part.format_spec.values
                            spec = fs[0].value if len(fs) == 1 and isinstance(fs[0], ast.Constant) else ""
                        t = str_of(v, spec) if spec != "" and part.conversion == -1 else None
                        if is_str(acc) and t is not None:
                            new.append((s2, scat(acc, t)))
                        else:
                            new.append((s2, Opaque("str")))
            out = new
        return out

    def lookup(self, name, st):
        fid = st.cur
        fr = st.frames.get(fid)
        while fr is not None:
            if name in fr and name != "__parent__":
                v = fr[name]
                if isinstance(v, Broken):
                    raise Unsupported(v.why)
                if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ("module", "from") and fr.get("__module__") is None:
                    for mm in self.modules.values():
                        if getattr(mm, "frame", None) == fid:
                            return self.module_get(mm, name, st)
                return v
            p = fr.get("__parent__")
            if p is None:
                break
            fid, fr = p, st.frames.get(p)
        m = None
        fr, root = st.frames.get(st.cur), st.cur
        while fr is not None:
            m = fr.get("__module__")
            if m is not None:
                break
            p = fr.get("__parent__")
            root = p if p is not None else root
            fr = st.frames.get(p) if p is not None else None
        if m is None:
            for mm in self.modules.values():
                if getattr(mm, "frame", None) == root:
                    m = mm
        if m is not None:
            try:
                return self.module_get(m, name, st)
            except Unsupported:
                node = getattr(m, "pending", {}).get(name)
                if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and st.frames.get(st.cur) is m.env:
                    # a module-level value outside the model: nothing is known of it (any use of it is refused)
                    m.env[name] = Opaque("module value %s" % name)
                    return m.env[name]
                if node is not None:
                    raise
        if name in self.builtin_names:
            return Builtin(name)
        raise Unsupported("unknown name %s" % name)

    def ev_Name(self, e, st):
        if st.cur is not None:
            fr = st.frames.get(st.cur)
            if fr is not None and e.id in fr and isinstance(fr[e.id], tuple) and fr[e.id] and isinstance(fr[e.id][0], str) and fr[e.id][:1] in (("module",), ("from",)) and fr.get("__module__") is None:
                for mm in self.modules.values():
                    if getattr(mm, "frame", None) == st.cur:
                        return [(st, self.module_get(mm, e.id, st))]
        return [(st, self.lookup(e.id, st))]

    def ev_Tuple(self, e, st):
        return [(s, tuple(vs)) for s, vs in self.ev_list(e.elts, st)]

    def ev_List(self, e, st):
        return [(s, self.new_list(s, vs)) for s, vs in self.ev_list(e.elts, st)]

    def ev_Set(self, e, st):
        out = []
        for s, vs in self.ev_list(e.elts, st):
            out.append((s, self.mk_set(s, vs)))
        return out

    def ev_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpack")
        out = []
        for s, vs in self.ev_list(list(itertools.chain(*zip(e.keys, e.values))), st):
            d = DictRef(self.alloc(s, HeapDict()))
            for k in range(0, len(vs), 2):
                self.dict_set(s, d, vs[k], vs[k + 1])
            out.append((s, d))
        return out

    def ev_Lambda(self, e, st):
        f = PyFunc(e, self.cur_module(st), st.cur, "<lambda>")
        d = e.args.defaults
        res = []
        for s, vs in self.ev_list(d, st):
            g = PyFunc(e, self.cur_module(st), s.cur, "<lambda>", None, vs)
            res.append((s, g))
        return res

    def cur_module(self, st):
        fr = st.frames.get(st.cur)
        while fr is not None:
            if fr.get("__module__") is not None:
                return fr["__module__"]
            p = fr.get("__parent__")
            fr = st.frames.get(p) if p is not None else None
        for mm in self.modules.values():
            if getattr(mm, "frame", None) == st.cur:
                return mm
        raise Unsupported("no module")

    def truth(self, v, st):
        if isinstance(v, Opt):
            t = self.truth(v.val, st)
            return And(Not(v.isnone), t)
        if is_bool(v):
            return v
        if v is None:
            return False
        if is_num(v):
            return cmp("!=", v, 0)
        if is_inf(v):
            return True
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if is_str(v):
            return v != z3.StringVal("")
        if isinstance(v, DictRef):
            if st.heap[v.addr].fmap is not None:
                return cmp(">", self.seq_of(v, st).n, 0)
            return len(st.heap[v.addr].items) > 0
        if isinstance(v, SetRef):
            return cmp(">", self.seq_of(v, st).n, 0)
        if isinstance(v, (ListRef, Seq)):
            return cmp(">", self.seq_of(v, st).n, 0)
        if isinstance(v, ObjRef):
            f, _ = v.cls.lookup("__bool__")
            g, _ = v.cls.lookup("__len__")
            if f or g:
                raise Unsupported("object truth")
            return True
        if isinstance(v, (SymObj, PyFunc, Bound, Builtin, ClassVal, UFun, Partial)) or (isinstance(v, SpecObj) and v.what == "match"):
            return True
        raise Unsupported("truth of %s" % type(v).__name__)

    def fork(self, st, cond):
        """-> [(state, bool)] for the feasible sides"""
        if isinstance(cond, bool):
            return [(st, cond)]
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        a, b = st.copy(), st
        out = []
        fa = self.feasible(a, cond)
        fb = self.feasible(b, Not(cond))
        if fa:
            if fb:
                a.assume(cond)
            out.append((a, True))
        if fb:
            b2 = b if not fa else b.copy()
            if fa:
                b2.assume(Not(cond))
            out.append((b2, False))
        return out

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(s, k):
            res = []
            for s2, v in self.ev(e.values[k], s):
                if k == len(e.values) - 1:
                    res.append((s2, v))
                    continue
                t = self.truth(v, s2)
                if isinstance(t, bool):
                    if t == isand:
                        res += go(s2, k + 1)
                    else:
                        res.append((s2, v))
                    continue
                # try the pure boolean form first
                s3 = s2.copy()
                s3.assume(t if isand else Not(t))
                n0 = len(self.obls)
                mark = next(self.counter)
                rest = go(s3, k + 1)
                if len(rest) == 1 and is_bool(v) and is_bool(rest[0][1]) and rest[0][0].pc[:len(s3.pc)] == s3.pc and self.same_heap(rest[0][0], s3):
                    extra = rest[0][0].pc[len(s3.pc):]
                    s2.facts = rest[0][0].facts
                    if extra:
                        s2.assume(Implies(t if isand else Not(t), And(*extra)))
                    res.append((s2, And(v, rest[0][1]) if isand else Or(v, rest[0][1])))
                else:
                    s4 = s2
                    s4.assume(Not(t) if isand else t)
                    if self.feasible(s4):
                        if isinstance(v, Opt) and not isand:
                            v = v.val
                        res.append((s4, v if not is_bool(v) else (not isand)))
                    res += [r for r in rest if self.feasible(r[0])]
            return res

        return go(st, 0)

    def same_heap(self, a, b):
        if a.heap.keys() != b.heap.keys():
            # new allocations are harmless, but changed ones are not
            for k in b.heap:
                if a.heap.get(k) is not b.heap[k]:
                    return False
        else:
            for k in b.heap:
                if a.heap[k] is not b.heap[k]:
                    return False
        for f in b.frames:
            fa, fb = a.frames.get(f), b.frames[f]
            if fa is None:
                continue
            for n in fb:
                if fa.get(n) is not fb[n]:
                    return False
        return True

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, Not(self.truth(v, s))))
            elif isinstance(e.op, ast.USub):
                out.append((s, neg(v) if not is_inf(v) else -v))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported("unary")
        return out

    def ev_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.ev_list([e.left, e.right], st):
            r = self.binop(s, e.op, a, b, e)
            if r is not DEAD:
                out.append((s, r))
        return out

    def binop(self, s, op, a, b, node):
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt):
                self.safety(s, Not(a.isnone), "TypeError", node)
                a = a.val
            if isinstance(b, Opt):
                self.safety(s, Not(b.isnone), "TypeError", node)
                b = b.val
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (ListRef, Seq)) and isinstance(b, (ListRef, Seq)) and not isinstance(a, (DictRef, SetRef)):
                return self.new_list(s, self.seq_of(a, s).concat(self.seq_of(b, s)))
            if is_str(a) and is_str(b):
                return scat(a, b)
            if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
                return Opaque("str")
            if isinstance(a, NpArr) or isinstance(b, NpArr):
                return self.np_bin(s, add, a, b)
            return add(a, b)
        if isinstance(a, NpArr) or isinstance(b, NpArr):
            f = {ast.Sub: sub, ast.Mult: mul, ast.Div: truediv}.get(type(op))
            if f is None:
                raise Unsupported("np op")
            return self.np_bin(s, f, a, b)
        if isinstance(op, ast.Mult) and (isinstance(a, (ListRef, tuple, Seq)) or isinstance(b, (ListRef, tuple, Seq))):
            if isinstance(b, (ListRef, tuple, Seq)):
                a, b = b, a
            sq = self.seq_of(a, s)
            if isinstance(b, int) and sq.is_lit:
                it = sq.items() * b
                return tuple(it) if isinstance(a, tuple) else self.new_list(s, it)
            if sq.is_lit and sq.n == 1:
                x = sq.items()[0]
                return self.new_list(s, Seq(ite(cmp(">=", b, 0), b, 0), lambda i: x))
            raise Unsupported("list * symbolic")
        if isinstance(op, ast.Sub) and isinstance(a, SetRef):
            raise Unsupported("set diff")
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Opaque("str")
        if isinstance(op, ast.BitOr) and is_bool(a) and is_bool(b):
            return Or(a, b)
        if isinstance(op, ast.BitAnd) and is_bool(a) and is_bool(b):
            return And(a, b)
        if isinstance(op, ast.Div) and isinstance(a, PathV) and (is_str(b) or isinstance(b, PathV)):
            return PathV(a.parts + (b.parts if isinstance(b, PathV) else (b,)))
        if not (is_scalar(a) and is_scalar(b)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("arith on opaque")
            raise Unsupported("arith on %s, %s" % (type(a).__name__, type(b).__name__))
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            if not self.safety(s, cmp("!=", b, 0), "ZeroDivisionError", node):
                return DEAD
            if conc2(num(b), 0) and num(b) == 0:
                return DEAD
            return truediv(a, b)
        if isinstance(op, ast.FloorDiv):
            if not self.safety(s, cmp("!=", b, 0), "ZeroDivisionError", node):
                return DEAD
            return self.floordiv(num(a), num(b))
        if isinstance(op, ast.Mod):
            if not self.safety(s, cmp("!=", b, 0), "ZeroDivisionError", node):
                return DEAD
            a, b = num(a), num(b)
            if conc2(a, b):
                return a % b
            if is_int(a) and is_int(b):
                x, y = pair(a, b)
                if isinstance(b, int) and b > 0:
                    return x % y
                # python's sign convention
                r = x % y
                self.safety(s, cmp(">", b, 0), "NegativeModulus", node)
                return r
            return sub(a, mul(b, self.floordiv(a, b)))
        if isinstance(op, ast.Pow):
            return self.power(s, num(a), num(b), node)
        if isinstance(op, ast.LShift) and conc2(a, b):
            return a << b
        raise Unsupported("binop %s" % type(op).__name__)

    def floordiv(self, a, b):
        if conc2(a, b):
            return a // b
        if is_int(a) and is_int(b):
            x, y = pair(a, b)
            if isinstance(b, int) and b > 0:
                return x / y
            # floor division for either sign
            return z3.If(y > 0, x / y, (-x) / (-y))
        return z3.ToInt(toreal(a) / toreal(b))

    POW = z3.Function("POW", z3.RealSort(), z3.RealSort(), z3.RealSort())
    SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())

    def power(self, s, a, b, node=None):
        if conc2(a, b) and isinstance(b, int) and (a != 0 or b >= 0):
            if b >= 0:
                return a ** b
            return Fraction(a) ** b
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int) and 0 <= b <= 12:
            r = 1
            for _ in range(b):
                r = mul(r, a)
            return r
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return self.sqrt(s, a, node)
        if conc2(a, b) and a in (0, 1) and b > 0:
            return a
        # complex / ZeroDivision territory
        ok = Or(cmp(">", a, 0), And(cmp("==", a, 0), cmp(">=", b, 0)))
        self.safety(s, ok, "ValueError", node)
        x, y = z3.simplify(toreal(a), som=True), z3.simplify(toreal(b), som=True)
        t = self.POW(x, y)
        f = self.fact
        f(s, z3.Implies(x > 0, t > 0))
        f(s, z3.Implies(x >= 0, t >= 0))
        f(s, z3.Implies(z3.And(x >= 1, y <= 0), t <= 1))
        f(s, z3.Implies(z3.And(x >= 1, y >= 0), t >= 1))
        f(s, z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), t <= 1))
        f(s, z3.Implies(z3.And(x > 0, x <= 1, y <= 0), t >= 1))
        f(s, z3.Implies(y == 0, t == 1))
        f(s, z3.Implies(y == 1, t == x))
        f(s, z3.Implies(y == 2, t == x * x))
        f(s, z3.Implies(z3.And(x == 0, y > 0), t == 0))
        f(s, z3.Implies(x == 1, t == 1))
        self.trusted.add("real power: positivity, monotone bounds at 0 and 1")
        return t

    def sqrt(self, s, a, node=None):
        a = num(a)
        if conc2(a, 0):
            import math
            fr = Fraction(a)
            p, q = fr.numerator, fr.denominator
            if p >= 0 and math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
                return Fraction(math.isqrt(p), math.isqrt(q)) if q != 1 else Fraction(math.isqrt(p))
        self.safety(s, cmp(">=", a, 0), "ValueError", node)
        x = z3.simplify(toreal(a), som=True)
        t = self.SQRT(x)
        self.fact(s, t >= 0)
        self.fact(s, t * t == x if not self.ctx else z3.Implies(x >= 0, t * t == x))
        self.trusted.add("square root: non-negative root")
        return t

    UN = {n: z3.Function(n.upper(), z3.RealSort(), z3.RealSort()) for n in ("sin", "cos", "exp", "log")}

    def ev_Compare(self, e, st):
        out = []
        for s, vs in self.ev_list([e.left] + e.comparators, st):
            acc = [(s, True)]
            for k, op in enumerate(e.ops):
                new = []
                for s2, r in acc:
                    for s3, c in self.compare(s2, op, vs[k], vs[k + 1], e):
                        new.append((s3, And(r, c)))
                acc = new
            out += acc
        return out

    def compare(self, s, op, a, b, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            res = self.contains(s, b, a, node)
            return [(s2, Not(c) if isinstance(op, ast.NotIn) else c) for s2, c in res]
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(a, b)
            return [(s, Not(c) if isinstance(op, ast.IsNot) else c)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eq(s, a, b)
            return [(s, Not(c) if isinstance(op, ast.NotEq) else c)]
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return [(s, self.order(s, o, a, b, node))]

    def order(self, s, o, a, b, node=None):
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            while a and b and is_str(a[0]) and is_str(b[0]) and str_eq(a[0], b[0]) is True:
                a, b = a[1:], b[1:]
            if not a or not b:
                return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[o]
            strict = "<" if o in ("<", "<=") else ">"
            if isinstance(a[0], ObjRef) and isinstance(b[0], ObjRef):
                # tuples are compared at the first items that differ
                e = self.eq(s, a[0], b[0])
                if e is True:
                    return self.order(s, o, a[1:], b[1:], node)
                return self.order(s, strict, a[0], b[0], node)
            return Or(self.order(s, strict, a[0], b[0], node), And(self.eq(s, a[0], b[0]), self.order(s, o, a[1:], b[1:], node)))
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if is_str(a) and is_str(b):
            a, b = strz(a), strz(b)
            return {"<": a < b, "<=": a <= b, ">": b < a, ">=": b <= a}[o]
        if isinstance(a, PathV) and isinstance(b, PathV) and len(a.parts) == len(b.parts):
            return self.order(s, o, a.parts, b.parts, node)
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt):
                self.safety(s, Not(a.isnone), "TypeError", node)
                a = a.val
            if isinstance(b, Opt):
                self.safety(s, Not(b.isnone), "TypeError", node)
                b = b.val
        if is_scalar(a) and is_scalar(b):
            return cmp(o, a, b)
        if isinstance(a, ObjRef):
            raise Unsupported("object order")
        raise Unsupported("order on %s/%s" % (type(a).__name__, type(b).__name__))

    def is_(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Opt):
                return x.isnone
            return False
        if is_scalar(a) and is_scalar(b):
            return cmp("==", a, b) if not (is_bool(a) and is_bool(b)) else Iff(a, b)
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            return toz(cmp("==", a.term, b.term)) if True else None
        if isinstance(a, (ListRef, ObjRef)) or isinstance(b, (ListRef, ObjRef)):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (ClassVal, Builtin, PyFunc)):
            return a is b or a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what.startswith("enum:") and b.what.startswith("enum:"):
            return a is b
        raise Unsupported("is")

    def eq(self, s, a, b):
        if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
            x, y = Opt.of(a), Opt.of(b)
            inner = True
            if x.isnone is not True and y.isnone is not True:
                inner = self.eq(s, x.val, y.val)
            return And(Iff(x.isnone, y.isnone), Or(x.isnone, inner))
        if is_bool(a) and is_bool(b):
            return Iff(a, b)
        if is_scalar(a) and is_scalar(b):
            return cmp("==", a, b)
        if is_str(a) and is_str(b):
            return str_eq(a, b)
        if isinstance(a, PathV) and isinstance(b, PathV):
            if len(a.parts) != len(b.parts):
                raise Unsupported("paths of different depth compared")
            return And(*[self.eq(s, x, y) for x, y in zip(a.parts, b.parts)])
        if isinstance(a, Opaque) and isinstance(b, Opaque) and hasattr(a, "t") and hasattr(b, "t"):
            return cmp("==", a.t, b.t)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what.startswith("enum:") and b.what.startswith("enum:"):
            return a is b
        if isinstance(a, SymObj) and isinstance(b, SymObj) and a.cls.name == b.cls.name and a.cls.name.startswith("dict:"):
            # dictionaries compare by contents: equal ones need not be the same object, but agree in every entry
            same = cmp("==", a.term, b.term)
            ents = [f for f in s.heap if isinstance(f, tuple) and f[0] == "F" and f[1] == a.cls.name]
            x, y = a.term, b.term
            if same is True:
                return True
            es = [toz(self.eq(s, s.heap[f].get(x), s.heap[f].get(y))) for f in ents]
            return z3.Or(toz(same), z3.And(DICTEQ(x, y), *es))
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            return cmp("==", a.term, b.term)
        if isinstance(a, ObjRef) and isinstance(b, ObjRef):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                body = f.node.body if isinstance(f, PyFunc) else []
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, bool):
                    return body[0].value.value
                raise Unsupported("custom __eq__")
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(s, x, y) for x, y in zip(a, b)])
        la = isinstance(a, (ListRef, Seq)) and not isinstance(a, (DictRef, SetRef))
        lb = isinstance(b, (ListRef, Seq)) and not isinstance(b, (DictRef, SetRef))
        if la and lb:
            return self.seq_eq(s, self.seq_of(a, s), self.seq_of(b, s))
        if isinstance(a, DictRef) or isinstance(b, DictRef) or isinstance(a, SetRef) or isinstance(b, SetRef):
            if a == b:
                return True
            if isinstance(a, DictRef) and isinstance(b, DictRef) and s.heap[a.addr].fmap is None and s.heap[b.addr].fmap is None:
                ia, ib = s.heap[a.addr].items, s.heap[b.addr].items
                if all(isinstance(k, str) for k, _ in ia + ib):
                    if {k for k, _ in ia} != {k for k, _ in ib}:
                        return False
                    ib = dict(ib)
                    return And(*[self.eq(s, v, ib[k]) for k, v in ia])
            raise Unsupported("dict/set equality")
        if isinstance(a, (Builtin, ClassVal, PyFunc, UFun, Bound)) or isinstance(b, (Builtin, ClassVal, PyFunc, UFun, Bound)):
            return a is b or a == b
        if (is_scalar(a) and isinstance(b, (str, tuple, ListRef, ObjRef))) or (is_scalar(b) and isinstance(a, (str, tuple, ListRef, ObjRef))):
            return False
        if isinstance(a, (str, tuple, ListRef, ObjRef, SymObj)) and isinstance(b, (str, tuple, ListRef, ObjRef, SymObj)):
            return False
        raise Unsupported("eq %s %s" % (type(a).__name__, type(b).__name__))

    def seq_eq(self, s, a, b):
        if a is b:
            return True
        if a.vec is not None and b.vec is not None:
            return a.vec == b.vec
        if a.is_lit and b.is_lit:
            if a.n != b.n:
                return False
            return And(*[self.eq(s, x, y) for x, y in zip(a.items(), b.items())])
        k = z3.Int("q!%d" % next(self.counter))
        return And(cmp("==", a.n, b.n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < toz(a.n)), toz(self.eq(s, a.get(k), b.get(k))))))

    def contains(self, s, cont, x, node):
        if isinstance(cont, DictRef):
            d = s.heap[cont.addr]
            if d.fmap is not None:
                return [(s, d.fmap["has"](x))]
            return [(s, Or(*[self.eq(s, x, k) for k, _ in d.items]))]
        if isinstance(cont, SetRef) and s.heap[cont.addr].mem is not None:
            h = s.heap[cont.addr]
            c, t = symmap.elem_key(x)
            if h.cls is not None and getattr(c, "name", c) != getattr(h.cls, "name", h.cls):
                raise Unsupported("membership of a value of another kind")
            return [(s, h.mem(t))]
        if isinstance(cont, SetRef):
            return [(s, Or(*[self.eq(s, x, k) for k in s.heap[cont.addr].items]))]
        if isinstance(cont, str) and isinstance(x, str):
            return [(s, x in cont)]
        if isinstance(cont, ObjRef):
            f, _ = cont.cls.lookup("__contains__")
            if f:
                return self.call(Bound(f, cont), [x], {}, s, node)
            g, _ = cont.cls.lookup("__getitem__")
            if g:
                # MutableMapping.__contains__: try self[key] except KeyError
                s2 = s.copy()
                s2.handlers = s2.handlers + (("KeyError",),)
                self.raised.append([])
                outs = self.call(Bound(g, cont), [x], {}, s2, node)
                rs = self.raised.pop()
                res = []
                for t, v in outs:
                    t.handlers = s.handlers
                    res.append((t, True))
                for t, exc in rs:
                    t.handlers = s.handlers
                    t.cur = s.cur
                    res.append((t, False))
                return res
            raise Unsupported("in object")
        if isinstance(cont, Opt):
            self.safety(s, Not(cont.isnone), "TypeError", node)
            return self.contains(s, cont.val, x, node)
        if isinstance(cont, SymSetView):
            return [(s, cont.has(x))]
        if isinstance(cont, SpecObj) and "__contains__" in cont.attrs:
            return cont.attrs["__contains__"].app(self, s, [x])
        sq = self.seq_of(cont, s)
        if sq.is_lit:
            return [(s, Or(*[self.eq(s, x, k) for k in sq.items()]))]
        k = z3.Int("q!%d" % next(self.counter))
        return [(s, z3.Exists([k], z3.And(0 <= k, k < toz(sq.n), toz(self.eq(s, sq.get(k), x)))))]

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            t = self.truth(c, s)
            if isinstance(t, bool):
                out += self.ev(e.body if t else e.orelse, s)
                continue
            base = s
            a = base.copy().assume(t)
            b = base.copy().assume(Not(t))
            ra = self.ev(e.body, a) if self.feasible(a) else []
            rb = self.ev(e.orelse, b) if self.feasible(b) else []
            out += self.merge(base, ra + rb)
        return out

    # ---------------------------------------------------------------- merging
    def merge(self, base, results):
        """merge [(state, value)] that all descend from `base` when values/heaps are compatible"""
        results = [r for r in results if not r[0].dead()]
        while len(results) > 1:
            a, b = results[-2], results[-1]
            m = self.merge2(base, a, b)
            if m is None:
                # try other pairs
                done = False
                for i in range(len(results)):
                    for j in range(i + 1, len(results)):
                        m = self.merge2(base, results[i], results[j])
                        if m is not None:
                            results = [r for k, r in enumerate(results) if k not in (i, j)] + [m]
                            done = True
                            break
                    if done:
                        break
                if not done:
                    return results
            else:
                results = results[:-2] + [m]
        return results

    def merge2(self, base, ra, rb):
        (sa, va), (sb, vb) = ra, rb
        n = len(base.pc)
        # common prefix
        k = 0
        while k < len(sa.pc) and k < len(sb.pc) and (sa.pc[k] is sb.pc[k] or z3.eq(sa.pc[k], sb.pc[k])):
            k += 1
        if k < n:
            return None
        ca, cb = And(*sa.pc[k:]), And(*sb.pc[k:])
        if isinstance(ca, bool) or isinstance(cb, bool):
            return None
        if sa.trace != sb.trace or sa.handlers != sb.handlers or sa.cur != sb.cur:
            return None
        try:
            val = self.mergeval(ca, va, vb, sa, sb)
            st = State()
            st.cur, st.handlers, st.trace = sa.cur, sa.handlers, sa.trace
            st.pc = sa.pc[:k]
            o = z3.simplify(z3.Or(toz(ca), toz(cb)))
            if not z3.is_true(o):
                if z3.is_not(cb) and z3.eq(cb.arg(0), ca) or z3.is_not(ca) and z3.eq(ca.arg(0), cb):
                    pass
                else:
                    st.pc.append(z3.Or(toz(ca), toz(cb)))
            fa, fb = sa.facts, sb.facts
            st.facts = list(fa)
            ids = {f.get_id() for f in fa}
            st.facts += [f for f in fb if f.get_id() not in ids]
            for f in set(sa.frames) | set(sb.frames):
                x, y = sa.frames.get(f), sb.frames.get(f)
                if x is None or y is None:
                    st.frames[f] = dict(x or y)
                    continue
                fr = {}
                for name in set(x) | set(y):
                    if name not in x or name not in y:
                        fr[name] = Broken("possibly unbound %s" % name)
                        continue
                    p, q = x[name], y[name]
                    if p is q:
                        fr[name] = p
                    elif isinstance(p, Broken) or isinstance(q, Broken):
                        fr[name] = p if isinstance(p, Broken) else q
                    else:
                        try:
                            fr[name] = self.mergeval(ca, p, q, sa, sb)
                        except Unsupported:
                            if f in base.frames and name in base.frames[f]:
                                raise
                            raise
                st.frames[f] = fr
            for a in set(sa.heap) | set(sb.heap):
                p, q = sa.heap.get(a), sb.heap.get(a)
                if p is None or q is None:
                    st.heap[a] = p if q is None else q
                elif p is q:
                    st.heap[a] = p
                else:
                    st.heap[a] = self.mergeobj(ca, p, q, sa, sb, a)
            return (st, val)
        except Unsupported as ex:
            if os.environ.get("PYDV_DEBUG"):
                print("merge failed:", ex)
            return None

    def mergeval(self, c, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, (ListRef, ObjRef)) and a == b:
            return a
        if isinstance(a, Seq) and isinstance(b, Seq) and a.is_lit and b.is_lit and a.n != b.n:
            raise Unsupported("merge lits")
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergeval(c, x, y, sa, sb) for x, y in zip(a, b))
        if isinstance(a, PyFunc) and isinstance(b, PyFunc) and a.node is b.node and a.frame == b.frame:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_val == b.self_val:
            return a
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if is_z3(a) and is_z3(b) and z3.eq(a, b):
            return a
        if (a is None) != (b is None) and not (is_scalar(a) or is_scalar(b) or isinstance(a, Opt) or isinstance(b, Opt)):
            raise Unsupported("merge None")
        return ite(c, a, b)

    def mergeobj(self, c, p, q, sa, sb, addr=None):
        if isinstance(p, HeapList) and isinstance(q, HeapList):
            if p.seq is q.seq:
                return p
            if p.seq.is_lit and q.seq.is_lit:
                if p.seq.n != q.seq.n:
                    if self.ctx:
                        return HeapList(Seq.ite(c, p.seq, q.seq))
                    raise Unsupported("merge lengths")
                return HeapList(Seq.lit([self.mergeval(c, x, y, sa, sb) for x, y in zip(p.seq.items(), q.seq.items())]))
            return HeapList(Seq.ite(c, p.seq, q.seq))
        if isinstance(p, HeapObj) and isinstance(q, HeapObj) and set(p.fields) == set(q.fields):
            return HeapObj(p.cls, {k: self.mergeval(c, p.fields[k], q.fields[k], sa, sb) if not isinstance(p.fields[k], FMap) else p.fields[k] for k in p.fields})
        if isinstance(p, FMap) and isinstance(q, FMap):
            return FMap(lambda t: ite(c, p.get(t), q.get(t)))
        if isinstance(p, HeapDict) and isinstance(q, HeapDict) and p.fmap is None and q.fmap is None and len(p.items) == len(q.items):
            items = []
            for (k1, v1), (k2, v2) in zip(p.items, q.items):
                if not (k1 is k2 or (not is_z3(k1) and k1 == k2)):
                    raise Unsupported("merge dict keys")
                items.append((k1, self.mergeval(c, v1, v2, sa, sb)))
            return HeapDict(items, p.default)
        if isinstance(p, HeapDict) and isinstance(q, HeapDict) and (symmap.smap(p) is not None or symmap.smap(q) is not None):
            return symmap.merge_maps(c, p, q, sa, sb, addr)
        if isinstance(p, HeapSet) and isinstance(q, HeapSet):
            if p.mem is None and q.mem is None and p.items == q.items:
                return p
            v = ite(c, symmap.set_of(p), symmap.set_of(q))
            return HeapSet(mem=v.mem, cls=v.cls)
        if p is GONE or q is GONE:
            return GONE
        raise Unsupported("merge heap objects")

    # ---------------------------------------------------------------- subscripts, attributes
    def ev_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            for s, vs in self.ev_list([e.value] + [x for x in parts if x is not None], st):
                it = iter(vs[1:])
                lo, hi, step = [next(it) if x is not None else None for x in parts]
                out.append((s, self.slice(s, vs[0], lo, hi, step, e)))
            return out
        for s, (v, k) in self.ev_list([e.value, e.slice], st):
            out += self.getitem(s, v, k, e)
        return out

    def slice(self, s, v, lo, hi, step, node):
        if isinstance(v, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return v[lo:hi:step]
        sq = self.seq_of(v, s)
        if sq.is_lit and all(x is None or isinstance(conc(x), int) for x in (lo, hi, step)):
            return self.new_list(s, sq.items()[conc(lo):conc(hi):conc(step)])
        if step is not None:
            if conc(step) == -1 and lo is None and hi is None:
                return self.new_list(s, Seq(sq.n, lambda i: sq.get(sub(sub(sq.n, 1), i))))
            raise Unsupported("slice step")
        n = sq.n

        def clamp(x, default):
            if x is None:
                return default
            x = conc(x)
            if isinstance(x, int) and x >= 0 and x == 0:
                return 0
            if not is_z3(x) and x > 0 or is_z3(x) and self.entails_quick(s, x >= 0):
                pass
            else:
                x = ite(cmp("<", x, 0), add(x, n), x)
                x = ite(cmp("<", x, 0), 0, x)
            if is_z3(x) and is_z3(n) and self.entails_quick(s, x <= n):
                return x
            return ite(cmp(">", x, n), n, x)

        lo2, hi2 = clamp(lo, 0), clamp(hi, n)
        lo2, hi2 = conc(z3.simplify(toz(lo2))), conc(z3.simplify(toz(hi2)))
        if lo2 != 0 if not is_z3(lo2) else True:
            hi2 = ite(cmp("<", hi2, lo2), lo2, hi2)
        elif is_z3(hi2) and not self.entails_quick(s, hi2 >= 0):
            hi2 = ite(cmp("<", hi2, 0), 0, hi2)
        return self.new_list(s, sq.slice(lo2, conc(z3.simplify(toz(hi2)))))

    def norm_index(self, s, sq, k, node):
        k = num(k)
        k = conc(k)
        if isinstance(k, int) and sq.is_lit:
            if k < 0:
                k += sq.n
            if not (0 <= k < sq.n):
                self.safety(s, False, "IndexError", node)
                return None
            return k
        if isinstance(k, int) and k < 0:
            k = add(sq.n, k)
            self.safety(s, cmp(">=", k, 0), "IndexError", node)
            return conc(z3.simplify(toz(k)))
        if isinstance(k, Fraction):
            raise Unsupported("float index")
        lt = cmp("<", k, sq.n)
        ge = cmp(">=", k, 0)
        if ge is not True and not self.entails_quick(s, ge):
            # possibly negative python index
            if not self.entails_quick(s, And(ge, lt)):
                k2 = ite(ge, k, add(k, sq.n))
                self.safety(s, And(cmp("<", k2, sq.n), cmp(">=", k2, 0)), "IndexError", node)
                return conc(z3.simplify(toz(k2)))
        self.safety(s, lt, "IndexError", node)
        return k

    def entails_quick(self, s, g):
        if isinstance(g, bool):
            return g
        fs = [f for f in self.hyps(s) if not self._hasq(f)] + [Not(g)]
        r, _ = check(fs, timeout=300)
        return r == z3.unsat

    def getitem(self, s, v, k, node):
        if isinstance(v, Opt):
            self.safety(s, Not(v.isnone), "TypeError", node)
            v = v.val
        if isinstance(v, DictRef):
            return self.dict_get(s, v, k, node)
        if isinstance(v, str) and isinstance(k, int):
            return [(s, v[k])]
        if isinstance(v, NpArr):
            v = v.seq
        if isinstance(v, ObjRef):
            f, _ = v.cls.lookup("__getitem__")
            if f:
                return self.call(Bound(f, v), [k], {}, s, node)
            raise Unsupported("getitem on object")
        if isinstance(v, SymMap):
            return [(s, v.get(k))]
        if isinstance(v, SymObj) and v.cls.name.startswith("tuple:") and isinstance(k, int):
            return self.getattr(s, v, "[%d]" % k, node)
        if isinstance(v, SymObj) and v.cls.name.startswith("dict:") and isinstance(k, str):
            return self.getattr(s, v, k, node)
        if isinstance(v, SpecObj) and "__getitem__" in v.attrs:
            return v.attrs["__getitem__"].app(self, s, [k])
        sq = self.seq_of(v, s)
        k2 = self.norm_index(s, sq, k, node)
        if k2 is None:
            return []
        if is_z3(k2) and sq.is_lit:
            # symbolic index into a literal: fork when the elements cannot be merged
            try:
                return [(s, sq.get(k2))]
            except Unsupported:
                out = []
                for j in range(sq.n):
                    t = s.copy().assume(k2 == j)
                    if self.feasible(t):
                        out.append((t, sq.items()[j]))
                return out
        return [(s, sq.get(k2))]

    # dictionaries ------------------------------------------------------------
    def same_key(self, s, a, b):
        try:
            return self.eq(s, a, b)
        except Unsupported:
            return False

    def dict_get(self, s, d, k, node, default=None, has_default=False):
        h = s.heap[d.addr]
        m = symmap.smap(h)
        if m is not None:
            return self.smap_get(s, d, h, m, k, node, default, has_default)
        if h.fmap is not None:
            if h.default is None and "has" in h.fmap:
                self.safety(s, h.fmap["has"](k), "KeyError", node)
            return [(s, h.fmap["get"](k))]
        out = []
        pend = s
        for kk, vv in h.items:
            c = self.same_key(pend, k, kk)
            if c is False:
                continue
            if c is True:
                out.append((pend, vv))
                pend = None
                break
            t = pend.copy().assume(c)
            if self.feasible(t):
                out.append((t, vv))
            pend = pend.copy().assume(Not(c))
            if not self.feasible(pend):
                pend = None
                break
        if pend is not None:
            if has_default:
                out.append((pend, default))
            elif h.default is not None:
                for s2, v in self.call(h.default, [], {}, pend, node):
                    self.dict_set(s2, d, k, v)
                    out.append((s2, v))
            else:
                if self.safety_raise(pend, "KeyError", node):
                    pass
        return out

    def smap_get(self, s, d, h, m, k, node, default, has_default):
        t = m.term(k)
        if has_default:
            out = []
            for s2, side in self.fork(s, m.has(t)):
                if not side:
                    out.append((s2, default))
                else:
                    out.append((s2, self.smap_val(d, m, t)))
            return out
        if h.default is None:
            self.safety(s, m.has(t), "KeyError", node)
        elif not self.entails_quick(s, m.has(t)):
            has = m.has
            m = symmap.SMap(m.kc or symmap.elem_key(k)[0], m.vk, m.ec, m.get, lambda x: Or(x == t, has(x)), m.epoch)
            s.heap[d.addr] = symmap.heapdict(m, h.default)
        return [(s, self.smap_val(d, m, t))]

    def smap_val(self, d, m, t):
        if m.vk == "list":
            return ListRef(CellAddr(d.addr, t, m.epoch))
        if m.vk == "set":
            return SetRef(CellAddr(d.addr, t, m.epoch))
        return m.get(t)

    def smap_set(self, s, d, h, m, k, v):
        t = m.term(k)
        epoch = m.epoch
        vk, ec = m.vk, m.ec
        if isinstance(v, (DictRef, SetRef, ListRef)):
            if isinstance(v, DictRef):
                raise Unsupported("dictionary stored in a symbolic dictionary")
            epoch += 1      # references to the former list are not to be used any more
            o = s.heap[v.addr]
            x, k2 = (symmap.set_of(o), "set") if isinstance(v, SetRef) else (o.seq, "list")
            if isinstance(v.addr, CellAddr):
                raise Unsupported("list shared by two dictionaries")
            dict.__setitem__(s.heap, v.addr, GONE)
            ec = ec or (x.cls if k2 == "set" else symmap.shape_of(x))
        else:
            x = num(v) if is_bool(v) and vk in ("num", "real") else v
            k2 = "bool" if is_bool(x) else ("num" if is_num(x) and is_int(x) else "real" if is_num(x) else "obj" if isinstance(x, SymObj) else None)
            ec = ec or (x.cls if k2 == "obj" else None)
        if vk == "num" and k2 == "real":
            vk = "real"
        if vk is not None and k2 != vk and not (vk == "real" and k2 == "num"):
            raise Unsupported("value of another kind stored in a symbolic dictionary")
        g, has = m.get, m.has
        s.heap[d.addr] = symmap.heapdict(symmap.SMap(m.kc or symmap.elem_key(k)[0], vk or k2, ec, (lambda y: ite(y == t, x, g(y))) if m.vk is not None else (lambda y: x),
                                                     lambda y: Or(y == t, has(y)), epoch), h.default)

    def smap_del(self, s, d, h, m, k, node):
        t = m.term(k)
        self.safety(s, m.has(t), "KeyError", node)
        g, has = m.get, m.has
        if h.default is not None:
            dv = symmap.default_value(h.default, m.vk, m.ec)
            g2 = lambda y: ite(y == t, dv, g(y))
        else:
            g2 = g
        s.heap[d.addr] = symmap.heapdict(symmap.SMap(m.kc, m.vk, m.ec, g2, lambda y: And(y != t, has(y)), m.epoch + 1), h.default)

    def safety_raise(self, st, exc, node):
        """the path certainly raises"""
        handled = any(exc_match(exc, h) for h in st.handlers)
        if handled:
            self.raised[-1].append((st, exc))
        else:
            self.oblige(st, "no %s" % exc, False, node)
        return False

    def dict_set(self, s, d, k, v):
        h = s.heap[d.addr]
        m = symmap.smap(h)
        if m is not None:
            return self.smap_set(s, d, h, m, k, v)
        if h.fmap is not None:
            g, has = h.fmap["get"], h.fmap["has"]
            eqk = lambda x: self.eq(s, x, k)
            s.heap[d.addr] = HeapDict((), h.default, dict(get=lambda x: ite(eqk(x), v, g(x)) if eqk(x) is not True else v,
                                                        has=lambda x: Or(eqk(x), has(x)), log=h.fmap.get("log", ()) + ((k, v),)))
            return
        items, found = [], False
        for kk, vv in h.items:
            c = self.same_key(s, k, kk)
            if c is True:
                items.append((kk, v))
                found = True
            elif c is False:
                items.append((kk, vv))
            else:
                if self.entails_quick(s, c):
                    items.append((kk, v))
                    found = True
                elif self.entails_quick(s, Not(c)):
                    items.append((kk, vv))
                else:
                    raise Unsupported("dict store with undetermined key")
        if not found:
            items.append((k, v))
        s.heap[d.addr] = HeapDict(items, h.default)

    def mk_set(self, s, vs):
        items = []
        for v in vs:
            dup = False
            for w in items:
                c = self.same_key(s, v, w)
                if c is True:
                    dup = True
                    break
                if c is not False:
                    if self.entails_quick(s, c):
                        dup = True
                        break
                    if not self.entails_quick(s, Not(c)):
                        raise Unsupported("set with undetermined equality")
            if not dup:
                items.append(v)
        return SetRef(self.alloc(s, HeapSet(items)))

    # attributes ---------------------------------------------------------------
    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += self.getattr(s, v, e.attr, e)
        return out

    def fmap_of(self, s, cls, attr):
        """field map of symbolic objects of class cls: stored in heap under ('F', cls, attr)"""
        for c in cls.mro():
            key = ("F", c.name, attr)
            if key in s.heap:
                return key, s.heap[key]
        return None, None

    def getattr(self, s, v, attr, node=None):
        if isinstance(v, Opt):
            self.safety(s, Not(v.isnone), "AttributeError", node)
            v = v.val
        if isinstance(v, ModuleVal):
            return [(s, self.module_attr(v, attr, s))]
        if isinstance(v, ObjRef):
            h = s.heap[v.addr]
            if attr in h.fields:
                return [(s, h.fields[attr])]
            if attr == "__class__":
                return [(s, h.cls)]
            f, owner = h.cls.lookup(attr)
            if f is None:
                alt = self.attr_hook(s, v, attr)
                if alt is not None:
                    return alt
                if v.addr in self.spec_objs:
                    raise Unsupported("the contract says nothing of attribute %s" % attr)
                self.safety_raise(s, "AttributeError", node)
                return []
            return self.bind(s, v, f, node)
        if isinstance(v, SymObj):
            key, fm = self.fmap_of(s, v.cls, attr)
            if fm is not None:
                return [(s, fm.get(v.term))]
            f, owner = v.cls.lookup(attr)
            if f is not None:
                return self.bind(s, v, f, node)
            raise Unsupported("field %s of symbolic %s" % (attr, v.cls.name))
        if isinstance(v, ClassVal):
            f, _ = v.lookup(attr)
            if f is None:
                if attr == "__name__":
                    return [(s, v.name)]
                raise Unsupported("class attr %s" % attr)
            return [(s, f)]
        if isinstance(v, SuperVal):
            f, _ = v.obj.cls.lookup(attr, after=v.cls) if v.cls in v.obj.cls.mro() else (None, None)
            if f is None:
                return [(s, Builtin("object." + attr))]
            return self.bind(s, v.obj, f, node)
        if isinstance(v, Builtin):
            return [(s, self.external(v.name + "." + attr))]
        if isinstance(v, PathV):
            if attr == "parent":
                if len(v.parts) < 2:
                    raise Unsupported("parent of a path root")
                return [(s, PathV(v.parts[:-1]))]
            if attr == "name":
                return [(s, v.parts[-1])]
            return [(s, Bound(Builtin("path." + attr), v))]
        if is_z3(v) and is_str(v):
            return [(s, Bound(Builtin("str." + attr), v))]
        if isinstance(v, (ListRef, str, tuple, Seq, NpArr)):
            return [(s, Bound(Builtin(("dict." if isinstance(v, DictRef) else "set." if isinstance(v, SetRef) else
                                       "str." if isinstance(v, str) else "np." if isinstance(v, NpArr) else "list.") + attr), v))]
        if isinstance(v, SpecObj):
            if attr not in v.attrs:
                raise Unsupported("the contract says nothing of attribute %s" % attr)
            return [(s, v.attrs[attr])]
        if isinstance(v, Opaque):
            return [(s, Opaque(v.what + "." + attr))]
        if isinstance(v, Partial) and attr == "func":
            return [(s, v.func)]
        if v is None:
            self.safety_raise(s, "AttributeError", node)
            return []
        raise Unsupported("attribute %s of %s" % (attr, type(v).__name__))

    def attr_hook(self, s, v, attr):
        return None

    def bind(self, s, obj, f, node):
        if isinstance(f, PyFunc):
            if f.is_property:
                return self.call(Bound(f, obj), [], {}, s, node)
            if f.is_static:
                return [(s, f)]
            return [(s, Bound(f, obj))]
        return [(s, f)]

    def setattr(self, s, v, attr, val, node=None):
        if isinstance(v, ObjRef):
            f, _ = v.cls.lookup("set:" + attr)
            if f is not None:
                outs = self.call(Bound(f, v), [val], {}, s, node)
                return [o[0] for o in outs]
            h = s.heap[v.addr]
            fields = dict(h.fields)
            fields[attr] = val
            s.heap[v.addr] = HeapObj(h.cls, fields)
            return [s]
        if isinstance(v, SymObj):
            key, fm = self.fmap_of(s, v.cls, attr)
            if fm is None:
                key, fm = ("F", v.cls.name, attr), FMap(lambda t: Undef())
            if isinstance(val, ListRef) and not isinstance(val, (DictRef, SetRef)):
                sq = s.heap[val.addr].seq
                s.heap[val.addr] = HeapList(sq, True)
                val = sq
            if isinstance(val, DictRef) and (v.cls.name, attr) in self.value_dicts:
                # a dictionary over the objectives, in their order: kept as the sequence of its values
                h = s.heap[val.addr]
                if not isinstance(h, HeapDict) or h.fmap is not None or [id(k) for k, _ in h.items] != [id(k) for k in self.value_dicts[(v.cls.name, attr)]]:
                    raise Unsupported("dictionary over other keys stored in a field")
                val = Seq.lit([x for _, x in h.items])
            s.heap[key] = fm.set(v.term, val)
            return [s]
        if isinstance(v, Opaque):
            return [s]
        raise Unsupported("setattr on %s" % type(v).__name__)

    # comprehensions -------------------------------------------------------------
    def ev_ListComp(self, e, st):
        return self.comprehension(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comprehension(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comprehension(e, st, "set")

    def ev_DictComp(self, e, st):
        return self.comprehension(e, st, "dict")

    def comprehension(self, e, st, kind):
        from .loops import comp
        return comp(self, e, st, kind)

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s.frames[s.cur][e.target.id] = v
            out.append((s, v))
        return out

    def ev_Starred(self, e, st):
        raise Unsupported("starred")

    def ev_Yield(self, e, st):
        out = []
        for s, v in (self.ev(e.value, st) if e.value else [(st, None)]):
            y = s.frames[s.cur]["__yield__"]
            s.heap[y.addr] = HeapList(s.heap[y.addr].seq.append(v))
            out.append((s, None))
        return out

    # calls -----------------------------------------------------------------------
    def nested(self, e, st):
        """xs[i].append(y) where the elements of xs are lists that only xs refers to -> [(state, address of xs, i)]"""
        if not (isinstance(e.func, ast.Attribute) and e.func.attr == "append" and isinstance(e.func.value, ast.Subscript) and not isinstance(e.func.value.slice, ast.Slice)):
            return None
        t = e.func.value.value
        while isinstance(t, ast.Attribute):
            t = t.value
        if not isinstance(t, ast.Name) or len(e.args) != 1 or e.keywords:
            return None
        outs = self.ev(e.func.value.value, st.copy())
        if len(outs) != 1:
            return None
        v = outs[0][1]
        if not isinstance(v, ListRef) or isinstance(v, (DictRef, SetRef)) or isinstance(v.addr, symmap.CellAddr):
            return None
        sq = getattr(outs[0][0].heap[v.addr], "seq", None)
        if sq is None or sq.is_lit or not sq.own:
            return None
        out = []
        for s, (v, i, x) in self.ev_list([e.func.value.value, e.func.value.slice, e.args[0]], st):
            sq = s.heap[v.addr].seq
            # nothing else may still hold (a copy of) an element
            held = [x for fr in s.frames.values() for x in fr.values()] + [x for h in s.heap.values() if isinstance(h, HeapObj) for x in h.fields.values()]
            if any(isinstance(x, Seq) and x.vec is None for x in held):
                raise Unsupported("list inside a list changed while it has another name")
            for a, h in s.heap.items():
                if isinstance(h, HeapList) and a != v.addr:
                    y = h.seq.get(0) if h.seq.is_lit and h.seq.n else None if h.seq.is_lit else h.seq.get(z3.Int("i?"))
                    if isinstance(y, (Seq, tuple)) and not (isinstance(y, Seq) and y.vec is not None):
                        raise Unsupported("list inside a list changed while another list may hold it")
            i = self.norm_index(s, sq, i, e)
            if i is None:
                continue
            r = sq.store(i, sq.get(i).append(x))
            r.own = True
            s.heap[v.addr] = HeapList(r)
            out.append((s, None))
        return out

    def ev_Call(self, e, st):
        out = self.nested(e, st)
        if out is not None:
            return out
        out = []
        for s, f in self.ev(e.func, st):
            if isinstance(f, Builtin) and f.name == "super":
                out.append((s, self.mk_super(s, e)))
                continue
            for s2, args in self.ev_list(e.args, s):
                kws = [(s2, {})]
                for kw in e.keywords:
                    new = []
                    for s3, d in kws:
                        for s4, v in self.ev(kw.value, s3):
                            d2 = dict(d)
                            if kw.arg is None:
                                if not isinstance(v, DictRef):
                                    raise Unsupported("** of %s" % type(v).__name__)
                                for kk, vv in s4.heap[v.addr].items:
                                    d2[kk] = vv
                            else:
                                d2[kw.arg] = v
                            new.append((s4, d2))
                    kws = new
                for s3, kwargs in kws:
                    out += self.call(f, args, kwargs, s3, e)
        return out

    def mk_super(self, s, e):
        fr = s.frames[s.cur]
        while fr is not None and "__class__" not in fr:
            fr = s.frames.get(fr.get("__parent__"))
        if fr is None:
            raise Unsupported("super")
        return SuperVal(fr["__class__"], fr["__self__"])

    def call(self, f, args, kwargs, st, node=None):
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs}, st, node)
        if isinstance(f, Opt):
            self.safety(st, Not(f.isnone), "TypeError", node)
            f = f.val
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return self.call_builtin(f.func.name, [f.self_val] + list(args), kwargs, st, node)
            if isinstance(f.func, PyFunc):
                return self.call_py(f.func, [f.self_val] + list(args), kwargs, st, node)
            raise Unsupported("bound")
        if isinstance(f, PyFunc):
            return self.call_py(f, list(args), kwargs, st, node)
        if isinstance(f, UFun):
            return f.app(self, st, args)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, Builtin):
            return self.call_builtin(f.name, list(args), kwargs, st, node)
        if isinstance(f, Opaque):
            return [(st, Opaque("result"))]
        if isinstance(f, (ObjRef, SymObj)):
            g, _ = f.cls.lookup("__call__")
            if g is not None:
                return self.call_py(g, [f] + list(args), kwargs, st, node)
        raise Unsupported("call of %s" % type(f).__name__)

    def instantiate(self, cls, args, kwargs, st, node):
        if any(isinstance(b, Builtin) and b.name.endswith("Exception") for b in cls.bases) or cls.name.endswith("Error"):
            return [(st, Opaque("exception:" + cls.name))]
        if cls.qualname if hasattr(cls, "qualname") else False:
            pass
        h = self.contracts.get("%s:%s" % (cls.module.name, cls.name))
        if h is not None:
            self.used_contracts.add("%s:%s" % (cls.module.name, cls.name))
            return h(self, st, args, kwargs, node)
        o = ObjRef(self.alloc(st, HeapObj(cls, {})), cls)
        init, _ = cls.lookup("__init__")
        if init is None:
            return [(st, o)]
        return [(s, o) for s, _ in self.call_py(init, [o] + list(args), kwargs, st, node)]

    def call_py(self, f, args, kwargs, st, node=None, top=False):
        if not top and f.qual in self.contracts:
            self.used_contracts.add(f.qual)
            return self.contracts[f.qual](self, st, args, kwargs, node)
        if self.inline_depth > 24:
            raise Unsupported("inline depth at %s" % f.name)
        if f.decorated is not None:
            raise Unsupported("%s is decorated with %s" % (f.name, f.decorated))
        if not top and not isinstance(f.node, ast.Lambda):
            self.inlined.add(f.qual)
        a = f.node.args
        fid = next(self.counter)
        fr = {"__parent__": f.frame, "__module__": f.module}
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if len(pos) > len(params):
            if a.vararg is None:
                self.safety_raise(st, "TypeError", node)
                return []
            fr[a.vararg.arg] = tuple(pos[len(params):])
            pos = pos[:len(params)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        for n_, v in zip(params, pos):
            fr[n_] = v
        kw = dict(kwargs)
        for n_ in params + [x.arg for x in a.kwonlyargs]:
            if n_ in kw:
                if n_ in fr:
                    self.safety_raise(st, "TypeError", node)
                    return []
                fr[n_] = kw.pop(n_)
        if kw and a.kwarg is None:
            self.safety_raise(st, "TypeError", node)
            return []
        if f.cls is not None and args:
            fr["__class__"] = f.cls
            fr["__self__"] = args[0]
        # defaults
        if isinstance(f.node, ast.Lambda):
            dvals = f.defaults
        else:
            dvals = None
        defaults = a.defaults
        if a.kwarg is not None:
            d = HeapDict(tuple(kw.items()))
            fr[a.kwarg.arg] = DictRef(self.alloc(st, d))
        missing = [p for p in params if p not in fr]
        for p in missing:
            k = params.index(p) - (len(params) - len(defaults))
            if k < 0:
                self.safety_raise(st, "TypeError", node)
                return []
            if dvals:
                fr[p] = dvals[k]
            else:
                save = st.cur
                st.frames.setdefault(("mod", f.module.name), {"__module__": f.module})
                st.cur = f.frame if f.frame in st.frames else ("mod", f.module.name)
                fr[p] = self.ev1(defaults[k], st)
                st.cur = save
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fr:
                if dflt is None:
                    self.safety_raise(st, "TypeError", node)
                    return []
                fr[x.arg] = self.ev1(dflt, st)
        saved = st.cur
        base_pc = list(st.pc)
        st.frames[fid] = fr
        st.cur = fid
        base = st.copy()
        self.inline_depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                outs = self.ev(f.node.body, st)
            else:
                body = f.node.body
                gen = self.is_generator(f.node)
                if gen:
                    st.frames[fid]["__yield__"] = self.new_list(st, [])
                res = self.exec_block(body, st)
                outs = []
                for s, o in res:
                    if o is None:
                        outs.append((s, None))
                    elif o[0] == "return":
                        outs.append((s, o[1]))
                    elif o[0] == "raise":
                        if any(exc_match(o[1], h) for h in s.handlers):
                            s.cur = saved
                            self.raised[-1].append((s, o[1]))
                        else:
                            self.oblige(s, "no %s" % o[1], False, node)
                    else:
                        raise Unsupported("stray control flow")
                if gen:
                    outs = [(s, s.frames[fid]["__yield__"]) for s, _ in outs]
        finally:
            self.inline_depth -= 1
        if top:
            for s, _ in outs:
                pass
            return outs
        for s, _ in outs:
            s.cur = saved
        for s, _ in outs:
            # frames of finished calls are only kept when a closure may need them
            if not self.makes_closure(f.node):
                s.frames.pop(fid, None)
        base.cur = saved
        if len(outs) > 1:
            outs = self.merge(base, outs)
        if len(outs) > self.path_limit:
            raise Unsupported("too many paths")
        return outs

    def makes_closure(self, node):
        if not hasattr(node, "_mkclos"):
            node._mkclos = any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for b in (node.body if isinstance(node.body, list) else [node.body]) for x in ast.walk(b))
        return node._mkclos

    def is_generator(self, node):
        if not hasattr(node, "_isgen"):
            found = False
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    found = True
                stack.extend(ast.iter_child_nodes(x))
            node._isgen = found
        return node._isgen

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        states = [(st, None)]
        for node in stmts:
            new = []
            base = None
            for s, o in states:
                if o is not None:
                    new.append((s, o))
                    continue
                if s.dead():
                    continue
                new += self.exec_stmt(node, s)
            states = new
            if len(states) > self.path_limit:
                raise Unsupported("too many paths")
        return states

    def exec_stmt(self, node, st):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(node).__name__)
        self.raised.append([])
        try:
            outs = m(node, st)
        finally:
            rs = self.raised.pop()
        for s, exc in rs:
            outs.append((s, ("raise", exc)))
        return outs

    def st_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, _ in self.ev(node.value, st)]

    def st_Pass(self, node, st):
        return [(st, None)]

    def st_Import(self, node, st):
        for a in node.names:
            st.frames[st.cur][a.asname or a.name.split(".")[0]] = self.load(a.name if a.asname else a.name.split(".")[0])
        return [(st, None)]

    def st_ImportFrom(self, node, st):
        for a in node.names:
            st.frames[st.cur][a.asname or a.name] = self.module_attr(self.load(node.module), a.name, st)
        return [(st, None)]

    def st_Global(self, node, st):
        raise Unsupported("global")

    def st_Nonlocal(self, node, st):
        fr = st.frames[st.cur]
        fr.setdefault("__nonlocal__", ())
        fr["__nonlocal__"] = fr["__nonlocal__"] + tuple(node.names)
        return [(st, None)]

    def st_FunctionDef(self, node, st):
        f = self.make_func(node, self.cur_module(st), st.cur)
        st.frames[st.cur][node.name] = f
        return [(st, None)]

    def st_ClassDef(self, node, st):
        st.frames[st.cur][node.name] = self.make_class(node, self.cur_module(st), st)
        return [(st, None)]

    def st_Return(self, node, st):
        if node.value is None:
            return [(st, ("return", None))]
        return [(s, ("return", v)) for s, v in self.ev(node.value, st)]

    def st_Break(self, node, st):
        return [(st, ("break",))]

    def st_Continue(self, node, st):
        return [(st, ("continue",))]

    def st_Raise(self, node, st):
        exc = "Exception"
        if node.exc is not None:
            x = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
            exc = ast.unparse(x).split(".")[-1]
            if isinstance(node.exc, ast.Name):
                fr, fid = st.frames.get(st.cur), None
                while fr is not None and node.exc.id not in fr:
                    fid = fr.get("__parent__")
                    fr = st.frames.get(fid)
                v = fr.get(node.exc.id) if fr is not None else None
                if isinstance(v, Opaque) and v.what.startswith("exception:"):
                    exc = v.what.split(":", 1)[1]
        elif st.frames[st.cur].get("__exc__"):
            exc = st.frames[st.cur]["__exc__"]
        return [(st, ("raise", exc))]

    def st_Assert(self, node, st):
        out = []
        for s, v in self.ev(node.test, st):
            t = self.truth(v, s)
            if self.safety(s, t, "AssertionError", node):
                out.append((s, None))
        return out

    def st_Delete(self, node, st):
        states = [st]
        for t in node.targets:
            new = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.frames[s.cur].pop(t.id, None)
                    new.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, (v, k) in self.ev_list([t.value, t.slice], s):
                        if isinstance(v, DictRef):
                            h = s2.heap[v.addr]
                            if h.fmap is not None:
                                if symmap.smap(h) is None:
                                    raise Unsupported("del from a dictionary of a contract")
                                self.smap_del(s2, v, h, symmap.smap(h), k, node)
                                new.append(s2)
                                continue
                            items = [(kk, vv) for kk, vv in h.items if self.same_key(s2, k, kk) is not True]
                            if len(items) == len(h.items):
                                self.safety_raise(s2, "KeyError", node)
                                continue
                            s2.heap[v.addr] = HeapDict(items, h.default)
                            new.append(s2)
                        else:
                            sq = self.seq_of(v, s2)
                            if not sq.is_lit or not isinstance(conc(k), int):
                                if isinstance(t.slice, ast.Slice) or not is_num(k) or not isinstance(v, ListRef):
                                    raise Unsupported("del symbolic")
                                from .builtins_model import _pop
                                new += [x[0] for x in _pop(self, s2, [v, k], {}, node)]
                                continue
                            it = list(sq.items())
                            if not (-len(it) <= conc(k) < len(it)):
                                self.safety_raise(s2, "IndexError", node)
                                continue
                            del it[conc(k)]
                            s2.heap[v.addr] = HeapList(Seq.lit(it))
                            new.append(s2)
                else:
                    raise Unsupported("del")
            states = new
        return [(s, None) for s in states]

    def st_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            states = [s]
            for t in node.targets:
                states = [x for s2 in states for x in self.assign(t, v, s2)]
            out += [(x, None) for x in states]
        return out

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [(st, None)]
        return [(x, None) for s, v in self.ev(node.value, st) for x in self.assign(node.target, v, s)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = st.frames[st.cur]
            if t.id in fr.get("__nonlocal__", ()):
                p = fr["__parent__"]
                while p is not None and t.id not in st.frames[p]:
                    p = st.frames[p].get("__parent__")
                st.frames[p][t.id] = v
            else:
                fr[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opt):
                self.safety(st, Not(v.isnone), "TypeError", t)
                v = v.val
            sq = self.seq_of(v, st)
            if not sq.is_lit:
                self.safety(st, cmp("==", sq.n, len(t.elts)), "ValueError", t)
                items = [sq.get(k) for k in range(len(t.elts))]
            else:
                items = list(sq.items())
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    raise Unsupported("starred target")
                if len(items) != len(t.elts):
                    self.safety_raise(st, "ValueError", t)
                    return []
            states = [st]
            for x, y in zip(t.elts, items):
                states = [z for s in states for z in self.assign(x, y, s)]
            return states
        if isinstance(t, ast.Attribute):
            return [x for s, o in self.ev(t.value, st) for x in self.setattr(s, o, t.attr, v, t)]
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                sl = t.slice
                for s, vs in self.ev_list([t.value] + [x for x in (sl.lower, sl.upper) if x is not None], st):
                    it = iter(vs[1:])
                    lo = next(it) if sl.lower is not None else None
                    hi = next(it) if sl.upper is not None else None
                    sq, nv = self.seq_of(vs[0], s), self.seq_of(v, s)
                    if lo is None and hi is None:
                        s.heap[vs[0].addr] = HeapList(nv)
                    elif sq.is_lit and nv.is_lit and all(x is None or isinstance(conc(x), int) for x in (lo, hi)):
                        items = list(sq.items())
                        items[slice(conc(lo) if lo is not None else None, conc(hi) if hi is not None else None)] = list(nv.items())
                        s.heap[vs[0].addr] = HeapList(Seq.lit(items))
                    else:
                        raise Unsupported("slice assign")
                    out.append(s)
                return out
            for s, (o, k) in self.ev_list([t.value, t.slice], st):
                out += self.setitem(s, o, k, v, t)
            return out
        raise Unsupported("assign target")

    def setitem(self, s, o, k, v, node):
        if isinstance(o, DictRef):
            h = s.heap[o.addr]
            if h.fmap is None:
                # fork on undetermined keys
                outs = []
                pend = s
                for kk, _ in h.items:
                    c = self.same_key(pend, k, kk)
                    if c is True or c is False:
                        continue
                    a = pend.copy().assume(c)
                    if self.feasible(a):
                        self.dict_set(a, o, kk, v)
                        outs.append(a)
                    pend = pend.copy().assume(Not(c))
                    if not self.feasible(pend):
                        pend = None
                        break
                if pend is not None:
                    self.dict_set(pend, o, k, v)
                    outs.append(pend)
                return outs
            self.dict_set(s, o, k, v)
            return [s]
        if isinstance(o, ObjRef):
            f, _ = o.cls.lookup("__setitem__")
            if f:
                return [x for x, _ in self.call(Bound(f, o), [k, v], {}, s, node)]
            raise Unsupported("setitem")
        if isinstance(o, SymObj) and o.cls.name.startswith("dict:") and isinstance(k, str):
            return self.setattr(s, o, k, v, node)
        if isinstance(o, SpecObj) and "__setitem__" in o.attrs:
            return [x for x, _ in o.attrs["__setitem__"].app(self, s, [k, v])]
        if isinstance(o, Seq):
            raise Unsupported("store into nested symbolic list")
        if isinstance(o, tuple):
            raise Unsupported("store into tuple")
        sq = self.seq_of(o, s)
        if isinstance(o, ListRef) and s.heap[o.addr].frozen:
            raise Unsupported("in-place change of a list stored in a symbolic object")
        k2 = self.norm_index(s, sq, k, node)
        if k2 is None:
            return []
        s.heap[o.addr] = HeapList(sq.store(k2, v))
        return [s]

    def st_AugAssign(self, node, st):
        load = ast.copy_location(self.as_load(node.target), node.target)
        out = []
        # in-place list extension keeps identity
        if isinstance(node.target, ast.Name) or isinstance(node.target, ast.Attribute) or isinstance(node.target, ast.Subscript):
            for s, (a, b) in self.ev_list([load, node.value], st):
                if isinstance(node.op, ast.Add) and isinstance(a, ListRef) and not isinstance(a, (DictRef, SetRef)):
                    s.heap[a.addr] = HeapList(self.seq_of(a, s).concat(self.seq_of(b, s)))
                    # re-bind (attribute setters are triggered by python too)
                    out += [(x, None) for x in self.assign(node.target, a, s)]
                    continue
                v = self.binop(s, node.op, a, b, node)
                if v is DEAD:
                    continue
                out += [(x, None) for x in self.assign(node.target, v, s)]
            return out
        raise Unsupported("augassign")

    def as_load(self, t):
        import copy
        t = copy.deepcopy(t)
        for x in ast.walk(t):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        return t

    def st_If(self, node, st):
        out = []
        for s, v in self.ev(node.test, st):
            t = self.truth(v, s)
            base = s.copy()
            sides = self.fork(s, t)
            res = []
            for s2, side in sides:
                res += self.exec_block(node.body if side else node.orelse, s2)
            if len(sides) == 2:
                normal = [(x, None) for x, o in res if o is None]
                other = [(x, o) for x, o in res if o is not None]
                if len(normal) > 1 and self.merge_ok:
                    normal = self.merge(base, normal)
                out += [(x, None) for x, _ in normal] + other
            else:
                out += res
        return out

    merge_ok = True

    def st_Try(self, node, st):
        names = []
        for h in node.handlers:
            if h.type is None:
                names.append(("Exception",))
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names.append(tuple(ast.unparse(x).split(".")[-1] for x in ts))
        saved = st.handlers
        cur = st.cur
        st.handlers = saved + tuple(names)
        outs = self.exec_block(node.body, st)
        res = []
        for s, o in outs:
            s.handlers = saved
            if o is not None and o[0] == "raise":
                hit = None
                for h, ns in zip(node.handlers, names):
                    if exc_match(o[1], ns):
                        hit = h
                        break
                if hit is not None:
                    s.cur = cur
                    s.frames[s.cur]["__exc__"] = o[1]
                    if hit.name:
                        s.frames[s.cur][hit.name] = Opaque("exception:" + o[1])
                    res += self.exec_block(hit.body, s)
                    continue
            if o is None and node.orelse:
                res += self.exec_block(node.orelse, s)
            else:
                res.append((s, o))
        if node.finalbody:
            fin = []
            for s, o in res:
                for s2, o2 in self.exec_block(node.finalbody, s):
                    fin.append((s2, o2 if o2 is not None else o))
            res = fin
        return res

    def st_With(self, node, st):
        states = [(st, None)]
        supp = ()
        for it in node.items:
            t = ast.unparse(it.context_expr)
            if t.startswith("suppress(") or t.startswith("contextlib.suppress("):
                supp += tuple(ast.unparse(x).split(".")[-1] for x in it.context_expr.args)
                continue
            if supp:
                raise Unsupported("with")
            new = []
            for s, _ in states:
                for s2, v in self.ev(it.context_expr, s):
                    if not (isinstance(v, SpecObj) and "__exit__" in v.attrs):
                        raise Unsupported("with")
                    if it.optional_vars is not None:
                        new += [(x, None) for x in self.assign(it.optional_vars, v, s2)]
                    else:
                        new.append((s2, None))
            states = new
        if not supp:
            return [r for s, _ in states for r in self.exec_block(node.body, s)]
        saved = st.handlers
        cur = st.cur
        st.handlers = saved + (supp,)
        res = []
        for s, o in self.exec_block(node.body, st):
            s.handlers = saved
            if o is not None and o[0] == "raise" and exc_match(o[1], supp):
                s.cur = cur
                o = None
            res.append((s, o))
        return res

    def st_For(self, node, st):
        from .loops import exec_for
        return exec_for(self, node, st)

    def st_While(self, node, st):
        from .loops import exec_while
        return exec_while(self, node, st)

    # numpy-like arrays ----------------------------------------------------------
    def np_bin(self, s, f, a, b):
        def S(x):
            if isinstance(x, NpArr):
                return x.seq
            if isinstance(x, (ListRef, Seq)) and not isinstance(x, (DictRef, SetRef)):
                return self.seq_of(x, s)
            return None
        x, y = S(a), S(b)
        if x is not None and y is not None:
            if x.is_lit and y.is_lit:
                return NpArr(Seq.lit([f(p, q) for p, q in zip(x.items(), y.items())]))
            return NpArr(Seq(x.n, lambda i: f(x.get(i), y.get(i))))
        if x is not None:
            return NpArr(Seq.lit([f(p, b) for p in x.items()]) if x.is_lit else Seq(x.n, lambda i: f(x.get(i), b)))
        return NpArr(Seq.lit([f(a, p) for p in y.items()]) if y.is_lit else Seq(y.n, lambda i: f(a, y.get(i))))


class NpArr:
    def __init__(self, seq):
        self.seq = seq


class SymSetView:
    def __init__(self, has):
        self.has = has


class SymMap:
    def __init__(self, get):
        self.get = get


class Undef:
    pass


DEAD = object()
