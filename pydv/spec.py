"""Contract API: a Proof describes one function of /repo under contract; its obligations come from the current source."""
import time, traceback, os
import z3
from .values import *
from .engine import Engine, State, NpArr, REPO
from . import loops, solve

PROOFS = []


class Proof:
    def __init__(self, prop, name, func, fn, bounded=None, budget=120):
        self.prop, self.name, self.func, self.fn, self.bounded, self.budget = prop, name, func, fn, bounded, budget


def proof(props, name, func, bounded=None, budget=120):
    """props: one id or several; func: the /repo function(s) whose body is verified; bounded: text of the bound when
    the shape of the input (never its values) is fixed"""
    def deco(fn):
        for p in ([props] if isinstance(props, str) else props):
            PROOFS.append(Proof(p, name, func, fn, bounded, budget))
        return fn
    return deco


class Absent(Exception):
    pass


class Ctx:
    def __init__(self, proof=None):
        self.eng = Engine()
        self.st = State()
        self.proof = proof
        self.eng.current = proof.func if proof else ""
        self.covers = []
        self.nret = 0
        self.final = False

    # ---- symbols
    def real(self, n):
        return z3.Real(n)

    def int(self, n, lo=None, hi=None):
        c = z3.Int(n)
        if lo is not None:
            self.assume(c >= lo)
        if hi is not None:
            self.assume(c <= hi)
        return c

    def bool(self, n):
        return z3.Bool(n)

    def str(self, n):
        return z3.String(n)

    def strs(self, name, n):
        f = z3.Function(name, z3.IntSort(), STR)
        s = Seq(n, lambda k: f(toz(k)))
        s.ety = f
        return s

    def vec(self, n, dim=None):
        v = z3.Const(n, Vec)
        self.fact(VLEN(v) >= 0)
        if dim is not None:
            self.fact(VLEN(v) == dim)
        return Seq.ofvec(v, dim)

    def vecs(self, name, n, dim=None):
        """symbolic sequence of n vectors (all of dimension dim when given)"""
        f = z3.Function(name, z3.IntSort(), Vec)
        i = z3.Int("i!" + name)
        if dim is not None:
            self.fact(z3.ForAll([i], VLEN(f(i)) == dim, patterns=[f(i)]))
        else:
            self.fact(z3.ForAll([i], VLEN(f(i)) >= 0, patterns=[f(i)]))
        s = Seq(n, lambda k: Seq.ofvec(f(toz(k)), dim))
        s.ety = f
        return s

    def reals(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        s = Seq(n, lambda k: f(toz(k)))
        s.ety = f
        return s

    def ints(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        s = Seq(n, lambda k: f(toz(k)))
        s.ety = f
        return s

    def litvec(self, name, n):
        return Seq.lit([z3.Real("%s_%d" % (name, k)) for k in range(n)])

    def fn1(self, name, *sorts):
        return z3.Function(name, *sorts)

    def assume(self, f):
        self.st.assume(toz(f) if not isinstance(f, bool) else f)

    def fact(self, f):
        self.st.facts.append(f)

    def lst(self, seq, st=None):
        return self.eng.new_list(st or self.st, seq)

    def dct(self, items, st=None):
        st = st or self.st
        return DictRef(self.eng.alloc(st, HeapDict(tuple(items))))

    def obj(self, cls, fields, st=None):
        st = st or self.st
        c = self.get(cls) if isinstance(cls, str) else cls
        r = ObjRef(self.eng.alloc(st, HeapObj(c, dict(fields))), c)
        self.eng.spec_objs.add(r.addr)
        return r

    def new(self, cls, args=(), **fields):
        """an object made by its real constructor, with some fields then set to an arbitrary reachable value; a field
        the constructor does not make puts the contract out of reach instead of raising an alarm"""
        c = self.get(cls) if isinstance(cls, str) else cls
        outs = self.call(c, list(args))
        if len(outs) != 1:
            raise Unsupported("constructor with %d outcomes" % len(outs))
        s, v = outs[0]
        self.covers.pop()
        if s is not self.st:
            self.st = s
        for n, x in fields.items():
            if n not in self.st.heap[v.addr].fields:
                raise Absent("no field %s" % n)
            self.eng.setattr(self.st, v, n, x)
        self.eng.spec_objs.add(v.addr)
        return v

    def get(self, dotted):
        try:
            return self.eng.get(dotted, self.st)
        except Unsupported as ex:
            raise Absent(str(ex))

    def method(self, obj, name):
        f, _ = obj.cls.lookup(name)
        if f is None:
            raise Absent("no method %s" % name)
        return f

    # ---- running
    def call(self, f, args=(), kwargs=None, st=None, top=True):
        """run the real body; -> [(state, value)]"""
        st = st or self.st
        eng = self.eng
        if isinstance(f, str):
            f = self.get(f)
        if isinstance(f, (Bound,)) and isinstance(f.func, PyFunc):
            args = [f.self_val] + list(args)
            f = f.func
        if isinstance(f, PyFunc):
            outs = eng.call_py(f, list(args), dict(kwargs or {}), st, None, top=top)
        else:
            outs = eng.call(f, list(args), dict(kwargs or {}), st, None)
        outs = [(s, v) for s, v in outs if not s.dead()]
        self.nret += len(outs)
        for s, v in outs:
            self.covers.append(s)
        return outs

    def call_ex(self, f, args=(), kwargs=None, st=None):
        """-> (normal outcomes, [(state, exception name)]): the function may also raise"""
        st = st or self.st
        n = len(st.handlers)
        st.handlers = st.handlers + (("Exception",),)
        self.eng.raised.append([])
        outs = self.call(f, args, kwargs, st)
        rs = self.eng.raised.pop()
        for s, _ in outs + rs:
            s.handlers = s.handlers[:n]
        rs = [(s, e) for s, e in rs if not s.dead()]
        self.nret += len(rs)
        self.covers += [s for s, _ in rs]
        return outs, rs

    def inv_timeout(self, ms):
        """time per candidate invariant (longer in the second attempt)"""
        self.eng.inv_timeout = ms * (5 if self.final else 1)

    def ensure(self, st, name, goal):
        self.eng.oblige(st, name, z3.BoolVal(True) if goal is True else goal)

    def have(self, st, name, goal):
        """an intermediate obligation, used afterwards"""
        self.ensure(st, name, goal)
        if goal is not True:
            st.assume(toz(goal))

    def seq(self, v, st):
        if isinstance(v, NpArr):
            return v.seq
        return self.eng.seq_of(v, st)


_B = [0]


def bvar(n="j", sort=None):
    _B[0] += 1
    return z3.Const("%s$%d" % (n, _B[0]), sort if sort is not None else z3.IntSort())


def forall(n, f, lo=0):
    """for all lo <= j < n: f(j)"""
    if isinstance(n, int) and isinstance(lo, int) and n - lo <= 64:
        return And(*[f(j) for j in range(lo, n)])
    j = bvar()
    return z3.ForAll([j], z3.Implies(z3.And(j >= toz(lo), j < toz(n)), toz(f(j))))


def exists(n, f, lo=0):
    if isinstance(n, int) and isinstance(lo, int) and n - lo <= 64:
        return Or(*[f(j) for j in range(lo, n)])
    j = bvar()
    return z3.Exists([j], z3.And(j >= toz(lo), j < toz(n), toz(f(j))))


def eq(a, b):
    return cmp("==", a, b)


def le(a, b):
    return cmp("<=", a, b)


def lt(a, b):
    return cmp("<", a, b)


# ------------------------------------------------------------------ running a proof
def run_proof(p, timeout=8000, final=False):
    """-> dict (picklable)"""
    t0 = time.time()
    res = dict(prop=p.prop, name=p.name, func=p.func, bounded=p.bounded, status="", obligations=[], reason="")
    c = Ctx(p)
    c.final = final
    try:
        p.fn(c)
        obls = c.eng.obls
        if not obls:
            res["status"], res["reason"] = "vacuous", "no obligations were generated"
        if c.covers and all(solve.check([f for f in c.eng.hyps(s) if is_z3(f)], timeout=700)[0] == z3.unsat for s in c.covers):
            res["status"], res["reason"] = "vacuous", "no reachable result state"
        if not c.covers and c.nret == 0 and not getattr(c, "lemma", False):
            res["status"], res["reason"] = "vacuous", "the function never returns normally"
        for o in obls:
            o.discharge(c.eng, timeout if not final else 30000)
            d = dict(name=o.name, where=o.where, status=o.status, backend=o.backend, time=round(o.time, 3))
            if o.status != "proved":
                d["goal"] = str(o.goal)[:1500]
                if o.model is not None:
                    d["model"] = str(o.model)[:3000]
            res["obligations"].append(d)
        if not res["status"]:
            bad = [o for o in obls if o.status != "proved"]
            res["status"] = "proved" if not bad else ("refuted" if any(o.status == "refuted" for o in bad) else "undecided")
    except Absent as ex:
        res["status"], res["reason"] = "absent", str(ex)
    except (Unsupported, RecursionError) as ex:
        res["status"], res["reason"] = "unsupported", str(ex)[:300]
    except z3.Z3Exception as ex:
        res["status"], res["reason"] = "unsupported", "z3: " + str(ex)[:200]
    except Exception as ex:
        res["status"], res["reason"] = "unsupported", "engine error: " + "".join(traceback.format_exception_only(type(ex), ex))[:300]
        res["trace"] = traceback.format_exc()[-1500:]
    res["contracts_used"] = sorted(c.eng.used_contracts)
    res["inlined"] = sorted(c.eng.inlined)
    res["trusted"] = sorted(c.eng.trusted)
    res["invariants"] = [dict(line=l, inductive=k) for _, l, k in c.eng.inv_log]
    res["queries"], res["solver_s"] = solve.STATS.queries, round(solve.STATS.time, 2)
    res["wall_s"] = round(time.time() - t0, 2)
    return res
