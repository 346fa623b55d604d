"""Obligations and their discharge with z3 (cvc5 as second opinion when z3 gives up)."""
import time, os, subprocess, tempfile, itertools
import z3
from .values import *


def decls(e, acc, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            stack.extend(x.children())
    return acc


class Axioms:
    """definitional axioms, pulled into a query only when one of their trigger symbols occurs in it"""

    def __init__(self):
        self.items = []  # (trigger names, formula)
        self.trusted = []

    def add(self, triggers, f):
        if f is True:
            return
        self.items.append((set(triggers), f))

    def relevant(self, fs):
        acc, seen = set(), set()
        for f in fs:
            if is_z3(f):
                decls(f, acc, seen)
        out, used = [], [False] * len(self.items)
        changed = True
        while changed:
            changed = False
            for k, (tr, f) in enumerate(self.items):
                if not used[k] and tr & acc:
                    used[k] = True
                    out.append(f)
                    n0 = len(acc)
                    decls(f, acc, seen)
                    changed = True
        return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


STATS = Stats()


def check(fs, timeout=8000, seed=None, qf=False, mbqi=None, arith=None, simple=None):
    # with quantifiers: z3's plain SMT core; its default solver object first rewrites them to a form it often gets lost in
    if simple is None:
        simple = any(has_quant(f) for f in fs)
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set("timeout", timeout)
    if seed is not None:
        s.set("random_seed", seed)
    if mbqi is not None:
        s.set("smt.mbqi", mbqi)
    if arith is not None:
        s.set("smt.arith.solver", arith)
    for f in fs:
        if f is True:
            continue
        if f is False:
            return z3.unsat, None
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    return r, s


_HQ = {}


def has_quant(f):
    if not is_z3(f):
        return False
    k = f.get_id()
    if k not in _HQ:
        if len(_HQ) > 50000:
            _HQ.clear()
        _HQ[k] = (f, _has_quant(f))     # the formula is kept, so that its number is not used again
    return _HQ[k][1]


def _has_quant(f):
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if not is_z3(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def cvc5_check(fs, timeout=10000):
    s = z3.Solver()
    for f in fs:
        if f is True:
            continue
        if f is False:
            return "unsat"
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
    try:
        t = time.time()
        out = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fh.name], capture_output=True, text=True,
                             timeout=timeout / 1000 + 5).stdout.strip().splitlines()
        STATS.queries += 1
        STATS.time += time.time() - t
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fh.name)


_SK = itertools.count()


def intro(hyps, goal):
    """split a goal into sequents [(hyps, atom goal)], introducing universal variables and hypotheses"""
    if goal is True or (is_z3(goal) and z3.is_true(goal)):
        return []
    if isinstance(goal, bool):
        return [(hyps, z3.BoolVal(False))]
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += intro(hyps, c)
        return out
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const("%s?%d" % (goal.var_name(i), next(_SK)), goal.var_sort(i)) for i in range(goal.num_vars())]
        return intro(hyps, z3.substitute_vars(goal.body(), *reversed(vs)))
    if z3.is_app(goal):
        k = goal.decl().kind()
        if k == z3.Z3_OP_IMPLIES:
            return intro(hyps + flat(goal.arg(0)), goal.arg(1))
        if k == z3.Z3_OP_OR:
            # Or(Not a, b): assume a, show b  (keep the last disjunct as the goal)
            cs = goal.children()
            # a disjunct that is itself a universal or conjunction is the best goal
            nots = [c for c in cs if z3.is_not(c)]
            rest = [c for c in cs if not z3.is_not(c)]
            if nots and len(rest) == 1:
                return intro(hyps + [x for c in nots for x in flat(c.arg(0))], rest[0])
            return [(hyps, goal)]
        if (k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF) and goal.arg(0).sort() == z3.BoolSort():
            a, b = goal.arg(0), goal.arg(1)
            if has_quant(a) or has_quant(b):
                return intro(hyps + flat(a), b) + intro(hyps + flat(b), a)
        if k == z3.Z3_OP_NOT:
            a = goal.arg(0)
            if z3.is_quantifier(a) and a.is_exists():
                vs = [z3.Const("%s?%d" % (a.var_name(i), next(_SK)), a.var_sort(i)) for i in range(a.num_vars())]
                return intro(hyps, z3.Not(z3.substitute_vars(a.body(), *reversed(vs))))
            if z3.is_and(a):
                cs = a.children()
                return intro(hyps + [x for c in cs[:-1] for x in flat(c)], z3.Not(cs[-1]))
            if z3.is_or(a):
                out = []
                for c in a.children():
                    out += intro(hyps, z3.Not(c))
                return out
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_IMPLIES:
                return intro(hyps, a.arg(0)) + intro(hyps, z3.Not(a.arg(1)))
            if z3.is_not(a):
                return intro(hyps, a.arg(0))
    return [(hyps, goal)]


def flat(f):
    """flatten a hypothesis; existentials are skolemised"""
    if z3.is_and(f):
        return [x for c in f.children() for x in flat(c)]
    if z3.is_quantifier(f) and f.is_exists():
        vs = [z3.Const("%s!%d" % (f.var_name(i), next(_SK)), f.var_sort(i)) for i in range(f.num_vars())]
        return flat(z3.substitute_vars(f.body(), *reversed(vs)))
    return [f]


def lemmas(eng, hyps, goal, timeout, depth):
    """congruence / sign lemmas for the big operators occurring in the sequent"""
    if eng is None or depth > 2:
        return []
    bo = eng.bigops
    apps = [a for a in bo.apps([goal]) if not has_var(a)]
    for h in hyps:
        if is_z3(h) and not z3.is_quantifier(h):
            for a in bo.apps([h]):
                if not has_var(a) and not any(z3.eq(a, x) for x in apps):
                    apps.append(a)
    apps = apps[:14]
    out = []
    for i in range(len(apps)):
        for j in range(i + 1, len(apps)):
            a, b = apps[i], apps[j]
            ia, ib = bo.info[a.decl().name()], bo.info[b.decl().name()]
            if ia["kind"] != ib["kind"] or ia["sort"] != ib["sort"] or ia["cond"] is not None or ib["cond"] is not None:
                continue
            m1, m2 = a.arg(0), b.arg(0)
            K = z3.Int("K?%d" % next(_SK))
            ea = z3.substitute(ia["e"], (bo.K, K), *zip(ia["bs"], [a.arg(q) for q in range(1, a.num_args())]))
            eb = z3.substitute(ib["e"], (bo.K, K), *zip(ib["bs"], [b.arg(q) for q in range(1, b.num_args())]))
            hy = hyps + [K >= 0, K < m1]
            if not z3.eq(m1, m2):
                if prove(eng, hyps, m1 == m2, min(timeout, 1500), depth + 1, quick=True)[0] != "proved":
                    continue
            if prove(eng, hy, ea == eb, min(timeout, 2000), depth + 1, quick=True)[0] == "proved":
                out.append(a == b)
            elif ia["kind"] == "sum" and depth == 0:
                if prove(eng, hy, ea <= eb, 800, depth + 1, quick=True)[0] == "proved":
                    out.append(a <= b)
                elif prove(eng, hy, ea >= eb, 800, depth + 1, quick=True)[0] == "proved":
                    out.append(a >= b)
    for a in apps:
        ia = bo.info[a.decl().name()]
        if ia["cond"] is not None:
            continue
        if ia["kind"] != "sum":
            # an extremum of non-negative terms over a non-empty range is non-negative
            K = z3.Int("K?%d" % next(_SK))
            ea = z3.substitute(ia["e"], (bo.K, K), *zip(ia["bs"], [a.arg(q) for q in range(1, a.num_args())]))
            if prove(eng, hyps + [K >= 0, K < a.arg(0)], ea >= 0, 800, depth + 1, quick=True)[0] == "proved":
                out.append(z3.Implies(a.arg(0) >= 1, a >= 0))
            continue
        K = z3.Int("K?%d" % next(_SK))
        ea = z3.substitute(ia["e"], (bo.K, K), *zip(ia["bs"], [a.arg(q) for q in range(1, a.num_args())]))
        hy = hyps + [K >= 0, K < a.arg(0)]
        if prove(eng, hy, ea >= 0, 800, depth + 1, quick=True)[0] == "proved":
            out.append(a >= 0)
            if depth == 0 and prove(eng, hy, ea == 0, 800, depth + 1, quick=True)[0] == "proved":
                out.append(a == 0)
    return out


def has_var(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            continue
        stack.extend(x.children())
    return False


def prove(eng, hyps, goal, timeout=8000, depth=0, quick=False, extra=()):
    """-> (status, backend, model)"""
    hyps = [h for h in hyps if h is not True and not (is_z3(h) and z3.is_true(h))]
    if any(h is False or (is_z3(h) and z3.is_false(h)) for h in hyps):
        return "proved", "trivial", None
    hyps = [toz(h) for h in hyps] + [toz(h) for h in extra]
    hyps = [x for h in hyps for x in flat(h)]
    backend = "z3"
    worst = ("proved", None)
    for hs, g in intro(hyps, goal):
        st, be, model = prove1(eng, hs, g, timeout, depth, quick)
        if st != "proved":
            return st, be, model
        if be not in ("z3", "trivial"):
            backend = be
    return "proved", backend, None


UDIV = z3.Function("div?", z3.RealSort(), z3.RealSort(), z3.RealSort())
UMUL = z3.Function("mul?", z3.RealSort(), z3.RealSort(), z3.RealSort())


def linear(e, memo):
    """the formula with non-linear products and quotients as uninterpreted functions (weaker: only its
    unsatisfiability is used); memo: "" -> was anything replaced"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = e
    if z3.is_quantifier(e):
        if e.is_lambda():
            r = e
        else:
            vs = [z3.Const("%s~l%d" % (e.var_name(i), next(_SK)), e.var_sort(i)) for i in range(e.num_vars())]
            op = list(reversed(vs))
            b0 = z3.substitute_vars(e.body(), *op)
            body = linear(b0, memo)
            if not z3.eq(body, b0):
                pats = []
                for i in range(e.num_patterns()):
                    pt = e.pattern(i)
                    cs = [linear(z3.substitute_vars(pt.arg(j), *op), memo) for j in range(pt.num_args())]
                    pats.append(z3.MultiPattern(*cs) if len(cs) > 1 else cs[0])
                r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
    elif z3.is_app(e) and e.num_args():
        cs = [linear(c, memo) for c in e.children()]
        kd = e.decl().kind()
        if kd == z3.Z3_OP_DIV and not (z3.is_rational_value(cs[1]) or z3.is_int_value(cs[1])):
            r = UDIV(cs[0], cs[1])
            memo[""] = memo.get("", 0) + 1
        elif kd == z3.Z3_OP_MUL and e.sort() == z3.RealSort() and sum(not z3.is_rational_value(c) for c in cs) > 1:
            lit = [c for c in cs if z3.is_rational_value(c)]
            rest = sorted([c for c in cs if not z3.is_rational_value(c)], key=str)
            r = rest[0]
            for c in rest[1:]:
                r = UMUL(r, c)
            for c in lit:
                r = c * r
            memo[""] = memo.get("", 0) + 1
        elif any(not z3.eq(c, d) for c, d in zip(cs, e.children())):
            r = e.decl()(*cs)
    memo[k] = (e, r)
    return r


def linearised(fs):
    memo = {}
    out = [linear(f, memo) if is_z3(f) else f for f in fs]
    return out if memo.get("") else None


def prove1(eng, hyps, goal, timeout, depth, quick):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "trivial", None
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort() and not z3.is_var(goal.arg(0)):
        # both sides have the same polynomial normal form (arguments of functions normalised the same way)
        if z3.is_true(z3.simplify(z3.simplify(goal.arg(0) - goal.arg(1), som=True, sort_sums=True, elim_to_real=False) == 0)):
            return "proved", "z3 simplifier (polynomial normal form)", None
    ax = eng.ax if eng is not None else Axioms()
    ng = z3.Not(goal)
    apps = bool(eng is not None and eng.bigops.apps([goal]))
    status, model = "undecided", None

    def attempt(fs, tries):
        nonlocal status, model
        for kw in tries:
            r, s = check(fs, **kw)
            if r == z3.unsat:
                return True
            if r == z3.sat:
                status = "refuted"
                try:
                    model = s.model()
                except Exception:
                    model = None
                return False
        return False

    fs = hyps + [ng]
    fs = ax.relevant(fs) + fs
    t1 = min(timeout, 600 if quick else (1000 if apps else 2500))
    if attempt(fs, [dict(timeout=t1)]):
        return "proved", "z3", None
    # quantifiers by matching only, with the older arithmetic solver: often succeeds where the first wanders off
    if status == "undecided" and any(has_quant(f) for f in fs) and check(fs, timeout=min(t1, 1500), mbqi=False, arith=2)[0] == z3.unsat:
        return "proved", "z3", None
    if status == "undecided":
        try:
            ab = linearised(fs)
        except z3.Z3Exception:
            ab = None
        if ab is not None and (check(ab, timeout=t1)[0] == z3.unsat or not quick and check(ab, timeout=timeout, mbqi=False)[0] == z3.unsat):
            return "proved", "z3 (products and quotients uninterpreted)", None
    if apps or (eng is not None and eng.bigops.apps([h for h in hyps if not z3.is_quantifier(h)])):
        ls = lemmas(eng, hyps, goal, timeout, depth)
        if ls:
            status = "undecided"
            fs = hyps + ls + [ng]
            fs = ax.relevant(fs) + fs
            if attempt(fs, [dict(timeout=min(timeout, 3000))]):
                return "proved", "z3", None
        elif status == "refuted":
            pass
    if status == "refuted" or quick:
        return status, "z3", model
    if attempt(fs, [dict(timeout=timeout, mbqi=False), dict(timeout=timeout // 2, seed=7, simple=False), dict(timeout=timeout, seed=7)]):
        return "proved", "z3", None
    if status == "undecided" and depth == 0 and cvc5_check(fs, timeout) == "unsat":
        return "proved", "cvc5", None
    return status, "z3", model


class Obligation:
    def __init__(self, name, hyps, goal, where="", func=""):
        self.name, self.hyps, self.goal, self.where, self.func = name, list(hyps), goal, where, func
        self.status, self.backend, self.time, self.model = None, None, 0.0, None

    def discharge(self, eng, timeout=8000, extra=()):
        t = time.time()
        if self.goal is True:
            self.status, self.backend = "proved", "trivial"
            return self.status
        self.status, self.backend, self.model = prove(eng, self.hyps, toz(self.goal), timeout, 0, False, extra)
        self.time = time.time() - t
        return self.status
