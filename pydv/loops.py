"""Loops and comprehensions.

Known length: complete unrolling.  Symbolic length: the loop body is executed once at a fresh index k with every
modified location replaced by a placeholder; the update expressions are then solved into closed forms (sum, count,
extremum, any/all, append-map, append-filter, indexed store, last value).  Each closed form is an inductive
invariant: it is checked to be preserved by the body (the step query below) and holds initially by construction.
A loop that does not fit is refused (Unsupported) unless a contract supplies an invariant for it.
"""
import ast, itertools
import z3
from .values import *
from .symmap import GONE
from . import symmap
from . import solve
from .solve import check


# ------------------------------------------------------------------ substitution in values
def subst(v, pairs):
    """pairs: [(z3 const, z3 term)]; works through values and lazily through Seq closures"""
    if not pairs:
        return v
    if is_z3(v):
        return conc(z3.substitute(v, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq):
        if v.is_lit:
            return Seq.lit([subst(x, pairs) for x in v.items()])
        n = subst(v.n, pairs)
        if v.kind == "flat":
            n0, c0, i0 = v.parts
            return Seq(n, v.get, "flat", (subst(n0, pairs), None if c0 is None else _sub_get(c0, pairs), _sub_get(i0, pairs)))
        vec = z3.substitute(v.vec, *pairs) if v.vec is not None else None
        return Seq(n, _sub_get(v.get, pairs), v.kind if v.kind == "base" else "fn", None, vec, v.ety)
    if isinstance(v, SymObj):
        return SymObj(v.cls, z3.substitute(v.term, *pairs))
    if isinstance(v, Opt):
        return Opt.mk(subst(v.isnone, pairs), subst(v.val, pairs))
    from .engine import NpArr
    if isinstance(v, NpArr):
        return NpArr(subst(v.seq, pairs))
    if isinstance(v, FMap):
        return FMap(_sub_get(v.get, pairs))
    if isinstance(v, PathV):
        return PathV([subst(x, pairs) for x in v.parts])
    if isinstance(v, Partial):
        return Partial(subst(v.func, pairs), tuple(subst(x, pairs) for x in v.args), {k: subst(x, pairs) for k, x in v.kwargs.items()})
    if isinstance(v, Bound):
        return Bound(v.func, subst(v.self_val, pairs))
    if isinstance(v, Opaque) and hasattr(v, "t"):
        return type(v)(subst(v.t, pairs))
    return v


def _sub_get(get, pairs):
    # the index passed by the caller must not be captured by the substitution
    def g(i):
        if is_z3(i):
            t = z3.Int("hole!%d" % next(_HOLE))
            r = subst(get(t), pairs)
            return subst(r, [(t, i)])
        return subst(get(i), pairs)
    return g


_HOLE = itertools.count()


def consts_in(v, names):
    """does value v mention one of the named constants?"""
    acc, seen = set(), set()
    for t in terms_of(v):
        solve.decls(t, acc, seen)
    return acc & names


def terms_of(v):
    if is_z3(v):
        return [v]
    if isinstance(v, tuple):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, SymObj):
        return [v.term]
    if isinstance(v, Opt):
        return terms_of(v.isnone) + terms_of(v.val)
    if isinstance(v, Seq):
        if v.is_lit:
            return [t for x in v.items() for t in terms_of(x)]
        t = z3.Int("hole!%d" % next(_HOLE))
        out = [toz(v.n)]
        try:
            out += terms_of(v.get(t))
        except Unsupported:
            pass
        return out
    from .engine import NpArr
    if isinstance(v, NpArr):
        return terms_of(v.seq)
    if isinstance(v, PathV):
        return terms_of(v.parts)
    if isinstance(v, Partial):
        return terms_of(v.func) + terms_of(tuple(v.args)) + terms_of(tuple(v.kwargs.values()))
    if isinstance(v, Bound):
        return terms_of(v.self_val)
    if isinstance(v, Opaque) and hasattr(v, "t"):
        return terms_of(v.t)
    return []


def freeze(eng, v, st, old):
    """snapshot lists allocated during the current body (addr not in `old`)"""
    if isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)):
        if v.addr in old:
            return v
        return freeze(eng, st.heap[v.addr].seq, st, old)
    if isinstance(v, Seq):
        if v.is_lit:
            return Seq.lit([freeze(eng, x, st, old) for x in v.items()])
        g = v.get
        s2 = st
        return Seq(v.n, lambda i: freeze(eng, g(i), s2, old), v.kind if v.kind in ("base", "filter", "flat") else "fn", v.parts if v.kind in ("filter", "flat") else None, v.vec, v.ety)
    if isinstance(v, tuple):
        return tuple(freeze(eng, x, st, old) for x in v)
    if isinstance(v, (DictRef, SetRef)) and v.addr not in old:
        raise Unsupported("dict/set created per element of a symbolic sequence")
    if isinstance(v, ObjRef) and v.addr not in old:
        raise Unsupported("object created per element of a symbolic sequence")
    return v


# ------------------------------------------------------------------ bodies executed at a symbolic index
class BodyCtx:
    """run something at symbolic index k in 0..n, collecting facts/obligations"""

    def __init__(self, eng, st, n, name="k", lo=0):
        self.eng, self.st, self.n, self.lo = eng, st, n, lo
        self.k = eng.fresh_index(name)

    def __enter__(self):
        self.eng.ctx.append(self.k)
        self.s = self.st.copy()
        self.s.assume(self.k >= toz(self.lo))
        self.s.assume(self.k < toz(self.n))
        self.nfacts = len(self.s.facts)
        self.npc = len(self.s.pc)
        self.nobl = len(self.eng.obls)
        return self

    def __exit__(self, *a):
        self.eng.ctx.pop()
        return False

    def gen_facts(self, states, pairs=()):
        """generalise the facts collected in the body over k and add them to the outer state"""
        seen = {f.get_id() for f in self.st.facts if is_z3(f)}
        for s in states:
            for f in s.facts[self.nfacts:]:
                if not is_z3(f) or f.get_id() in seen:
                    continue
                seen.add(f.get_id())
                g = z3.substitute(f, *pairs) if pairs else f
                self.st.facts.append(generalise(self.k, self.lo, self.n, g))


def generalise(k, lo, n, f):
    if isinstance(f, bool):
        return f
    acc = set()
    solve.decls(f, acc, set())
    if k.decl().name() not in acc:
        return f
    v = z3.Int("g!%s" % k.decl().name())
    rng = z3.And(v >= toz(lo), v < toz(n))
    body = z3.substitute(f, (k, v))
    if z3.is_quantifier(body) and body.is_forall():
        # merge prefixes: one quantifier gives better triggers
        vs = [z3.Const("%s~%d" % (body.var_name(i), next(_HOLE)), body.var_sort(i)) for i in range(body.num_vars())]
        inner = z3.substitute_vars(body.body(), *reversed(vs))
        return z3.ForAll([v] + vs, z3.Implies(rng, inner))
    return z3.ForAll([v], z3.Implies(rng, body))


def sym_map(eng, st, sq, fn, node=None, pure=True):
    """[fn(x) for x in sq] for a symbolic sequence; fn(st, x) -> [(st, v)].  Returns (st, Seq of values)."""
    with BodyCtx(eng, st, sq.n) as b:
        base = b.s.copy()
        old = set(b.s.heap)
        outs = fn(b.s, sq.get(b.k))
        if len(outs) > 1:
            outs = eng.merge(base, outs)
        if len(outs) != 1:
            raise Unsupported("forking element expression")
        s1, v = outs[0]
        check_pure(eng, base, s1)
        v = freeze(eng, v, s1, old)
        b.gen_facts([s1])
    if sq.kind == "filter":
        n0, cond, elt, idx = sq.parts
        # value as a function of the filtered index
        seq = Seq(sq.n, _at(v, b.k))
        return seq
    return Seq(sq.n, _at(v, b.k))


def _at(v, k):
    def get(i):
        if is_z3(i) and z3.eq(i, k):
            return v
        return subst(v, [(k, toz(i))])
    return get


def check_pure(eng, a, b):
    for addr, o in a.heap.items():
        if b.heap.get(addr) is not o:
            raise Unsupported("side effect inside comprehension over symbolic sequence")
    for f in a.frames:
        fa, fb = a.frames[f], b.frames.get(f, {})
        for nme in fa:
            if fb.get(nme) is not fa[nme]:
                if f == a.cur and False:
                    continue
                raise Unsupported("side effect inside comprehension")


# ------------------------------------------------------------------ comprehensions
def comp(eng, e, st, kind):
    if kind == "dict":
        elt = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
    else:
        elt = e.elt
    # comprehension scope: child frame
    fid = next(eng.counter)
    saved = st.cur
    st.frames[fid] = {"__parent__": saved}
    st.cur = fid
    outs = comp_gen(eng, elt, e.generators, 0, st)
    res = []
    for s, sq in outs:
        s.cur = saved
        if kind == "list":
            res.append((s, eng.new_list(s, sq)))
        elif kind == "set":
            if not sq.is_lit:
                res.append((s, SetRef(eng.alloc(s, symmap.set_from(eng, s, sq)))))
                continue
            res.append((s, eng.mk_set(s, sq.items())))
        else:
            if not sq.is_lit:
                res.append((s, DictRef(eng.alloc(s, symmap.from_pairs(eng, s, sq)))))
                continue
            d = DictRef(eng.alloc(s, __import__("pydv.values", fromlist=["HeapDict"]).HeapDict()))
            ss = [s]
            for kk, vv in sq.items():
                ss = [y for x in ss for y in eng.setitem(x, d, kk, vv, e)]
            res += [(x, d) for x in ss]
    return res


def comp_gen(eng, elt, gens, gi, st):
    """-> [(state, Seq)]"""
    if gi == len(gens):
        return [(s, Seq.lit([v])) for s, v in eng.ev(elt, st)]
    g = gens[gi]
    out = []
    for s, it in eng.ev(g.iter, st):
        for s, sq in iter_seq(eng, it, s, g.iter):
            if sq.is_lit and sq.n <= eng.unroll_limit:
                out += comp_lit(eng, elt, gens, gi, s, sq)
            elif sq.kind == "flat":
                out.append(comp_flat(eng, elt, gens, gi, s, sq))
            else:
                out.append(comp_sym(eng, elt, gens, gi, s, sq))
    return out


def comp_lit(eng, elt, gens, gi, st, sq):
    g = gens[gi]
    states = [(st, Seq.lit([]))]
    for item in sq.items():
        new = []
        for s, acc in states:
            for s2 in eng.assign(g.target, item, s):
                conds = [(s2, True)]
                for c in g.ifs:
                    nc = []
                    for s3, ok in conds:
                        if not ok:
                            nc.append((s3, ok))
                            continue
                        for s4, v in eng.ev(c, s3):
                            nc += eng.fork(s4, eng.truth(v, s4))
                    conds = nc
                for s3, ok in conds:
                    if not ok:
                        new.append((s3, acc))
                    elif gi == len(gens) - 1:
                        for s4, v in eng.ev(elt, s3):
                            new.append((s4, acc.append(v)))
                    else:
                        for s4, sub_ in comp_gen(eng, elt, gens, gi + 1, s3):
                            new.append((s4, acc.concat(sub_)))
        states = new
        if len(states) > eng.path_limit:
            raise Unsupported("too many paths")
    return states


def comp_flat(eng, elt, gens, gi, st, sq):
    """comprehension over a flattened product: one over its blocks, of ones over the elements of a block"""
    n, cond, inner = sq.parts
    with BodyCtx(eng, st, n) as b:
        base = b.s.copy()
        old = set(b.s.heap)
        if cond is not None:
            b.s.assume(cond(b.k))
        block = inner(b.k)
        if block.is_lit and block.n <= eng.unroll_limit:
            outs = comp_lit(eng, elt, gens, gi, b.s, block)
        elif block.kind == "flat":
            outs = [comp_flat(eng, elt, gens, gi, b.s, block)]
        else:
            outs = [comp_sym(eng, elt, gens, gi, b.s, block)]
        if len(outs) > 1:
            outs = eng.merge(b.s.copy(), outs)
        if len(outs) != 1:
            raise Unsupported("forking element expression")
        s1, v = outs[0]
        for addr, o in base.heap.items():
            if s1.heap.get(addr) is not o:
                raise Unsupported("side effect inside comprehension over symbolic sequence")
        v = freeze(eng, v, s1, old)
        b.gen_facts([s1])
    return (st, Seq_flat(eng, n, cond, _at(v, b.k)))


def comp_sym(eng, elt, gens, gi, st, sq):
    g = gens[gi]
    with BodyCtx(eng, st, sq.n) as b:
        base = b.s.copy()
        old = set(b.s.heap)
        ss = eng.assign(g.target, sq.get(b.k), b.s)
        if len(ss) != 1:
            raise Unsupported("target")
        s = ss[0]
        frames0 = {f: dict(v) for f, v in s.frames.items()}
        cond = True
        for c in g.ifs:
            o = eng.ev(c, s)
            if len(o) > 1:
                o = eng.merge(s.copy(), [(x, eng.truth(v, x)) for x, v in o])
            if len(o) != 1:
                raise Unsupported("forking filter condition")
            s, v = o[0]
            t = eng.truth(v, s)
            cond = And(cond, t)
            s.assume(t)
        if gi == len(gens) - 1:
            outs = eng.ev(elt, s)
        else:
            outs = comp_gen(eng, elt, gens, gi + 1, s)
        if len(outs) > 1:
            outs = eng.merge(s.copy(), outs)
        if len(outs) != 1:
            raise Unsupported("forking element expression")
        s1, v = outs[0]
        for addr, o in base.heap.items():
            if s1.heap.get(addr) is not o:
                raise Unsupported("side effect inside comprehension over symbolic sequence")
        own = isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)) and v.addr not in old
        v = freeze(eng, v, s1, old)
        b.gen_facts([s1])
    k = b.k
    if gi == len(gens) - 1:
        if cond is True:
            if sq.kind == "filter":
                n0, c0, e0, idx = sq.parts
                return (st, _refilter(eng, st, sq, _at(v, k)))
            r = Seq(sq.n, _at(v, k))
            r.own = own
            return (st, r)
        return (st, mk_filter(eng, st, sq.n, _at(cond, k), _at(v, k), base=sq, bcond=_at(cond, k), belt=_at(v, k)))
    inner = _at(v, k)
    return (st, Seq_flat(eng, sq.n, _at(cond, k) if cond is not True else None, inner))


def _refilter(eng, st, sq, get):
    """map over a filtered sequence keeps the index structure: the element at base index j is the one at rank(j)"""
    n0, c0, e0, (F, R) = sq.parts

    def elt(j):
        j = toz(j)
        return subst(get(R(j)), [(F(R(j)), j)])
    return Seq(sq.n, get, "filter", (n0, c0, elt, (F, R)))


def Seq_flat(eng, n, cond, inner):
    def noget(i):
        raise Unsupported("index into flattened symbolic product")
    return Seq(eng.fresh_int("flatlen"), noget, "flat", (n, cond, inner))


def mk_filter(eng, st, n0, cond, elt, base=None, bcond=None, belt=None):
    """sequence of elt(j) for j<n0 with cond(j), in order"""
    kk = eng.fresh_index("c")
    cnt = eng.bigops.sum(ite(cond(kk), 1, 0), kk)(n0)
    cnt = conc(cnt)
    F = eng.fresh_fun("flt", 1)
    R = eng.fresh_fun("rnk", 1)
    i, j = z3.Int("i!%d" % next(eng.counter)), z3.Int("j!%d" % next(eng.counter))
    n0z, cz = toz(n0), toz(cnt)
    f = eng.fact
    f(st, cz >= 0)
    f(st, cz <= z3.If(n0z >= 0, n0z, 0))
    f(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cz), z3.And(0 <= F(i), F(i) < n0z, toz(cond(F(i))), R(F(i)) == i)), patterns=[F(i)]))
    f(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cz), F(i) < F(j)), patterns=[z3.MultiPattern(F(i), F(j))]))
    f(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0z, toz(cond(j))), z3.And(0 <= R(j), R(j) < cz, F(R(j)) == j)), patterns=[R(j)]))
    return Seq(cnt, lambda x: elt(F(toz(x))), "filter", (n0, cond, elt, (F, R)))


# ------------------------------------------------------------------ reductions over sequences
def red_sum(eng, st, sq, start=0):
    if sq.is_lit:
        r = start
        for x in sq.items():
            r = eng.binop(st, ast.Add(), r, x, None)
        return r
    if sq.kind == "filter":
        n0, cond, elt, _ = sq.parts
        k = eng.fresh_index("s")
        e = ite(cond(k), num(elt(k)), 0)
        return add(start, eng.bigops.sum(e, k)(n0))
    if sq.kind == "concat":
        return red_sum(eng, st, sq.parts[1], red_sum(eng, st, sq.parts[0], start))
    if sq.kind == "flat":
        n, cond, inner = sq.parts
        k = eng.fresh_index("s")
        e = num(red_sum(eng, st, inner(k)))
        if cond is not None:
            e = ite(cond(k), e, 0)
        return add(start, eng.bigops.sum(e, k)(n))
    k = eng.fresh_index("s")
    e = num(sq.get(k))
    return add(start, eng.bigops.sum(e, k)(sq.n))


def red_len(eng, st, sq):
    if sq.kind == "flat":
        n, cond, inner = sq.parts
        k = eng.fresh_index("s")
        e = red_len(eng, st, inner(k))
        if cond is not None:
            e = ite(cond(k), e, 0)
        return eng.bigops.sum(e, k)(n)
    return sq.n


def red_any(eng, st, sq, all_=False):
    comb = And if all_ else Or
    if sq.is_lit:
        return comb(*[eng.truth(x, st) for x in sq.items()])
    k = z3.Int("q!%d" % next(eng.counter))
    if sq.kind == "filter":
        n0, cond, elt, _ = sq.parts
        n, guard, body = n0, cond(k), eng.truth(elt(k), st)
    elif sq.kind == "flat":
        n, cond, inner = sq.parts
        guard = cond(k) if cond is not None else True
        body = red_any(eng, st, inner(k), all_)
    else:
        n, guard, body = sq.n, True, eng.truth(sq.get(k), st)
    rng = And(k >= 0, cmp("<", k, n), guard)
    if all_:
        return z3.ForAll([k], toz(Implies(rng, body)))
    return z3.Exists([k], toz(And(rng, body)))


def nonempty(eng, st, sq):
    """boolean: the sequence has an element"""
    if sq.kind == "flat":
        n, cond, inner = sq.parts
        k = z3.Int("q!%d" % next(eng.counter))
        return z3.Exists([k], toz(And(k >= 0, cmp("<", k, n), cond(k) if cond is not None else True, nonempty(eng, st, inner(k)))))
    return cmp(">", sq.n, 0)


def red_ext(eng, st, sq, mode, node=None):
    if sq.is_lit:
        it = list(sq.items())
        if not it:
            eng.safety_raise(st, "ValueError", node)
            return None
        r = it[0]
        for x in it[1:]:
            c = eng.order(st, ">" if mode == "max" else "<", x, r, node)
            r = ite(c, x, r)
        return r
    if sq.kind == "flat":
        n, cond, inner = sq.parts
        if cond is not None:
            raise Unsupported("extremum of filtered product")
        k = eng.fresh_index("s")
        inn = inner(k)
        if inn.kind in ("filter",):
            raise Unsupported("extremum of filtered product")
        eng.safety(st, cmp(">", n, 0), "ValueError", node)
        if not inn.is_lit:
            # only the product of non-empty ranges
            eng.safety(st, subst(cmp(">", inn.n, 0), [(k, z3.IntVal(0))]) if not consts_in(inn.n, {k.decl().name()}) else z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < toz(n)), toz(cmp(">", inn.n, 0)))), "ValueError", node)
        s2 = st.copy()
        s2.assume(z3.And(k >= 0, k < toz(n)))
        e = num(red_ext(eng, s2, inn, mode, node))
        return eng.bigops.ext(e, k, mode)(n)
    if sq.kind == "filter":
        n0, cond, elt, _ = sq.parts
        eng.safety(st, cmp(">", sq.n, 0), "ValueError", node)
        k = eng.fresh_index("s")
        return eng.bigops.ext(num(elt(k)), k, mode, cond(k))(n0)
    eng.safety(st, cmp(">", sq.n, 0), "ValueError", node)
    k = eng.fresh_index("s")
    x = sq.get(k)
    if not is_scalar(x):
        raise Unsupported("extremum of non-numbers")
    return eng.bigops.ext(num(x), k, mode)(sq.n)


def arg_ext(eng, st, sq, keyfn, mode, node=None):
    """min/max(seq, key=...) over symbolic sequence: returns the first extremal element"""
    eng.safety(st, cmp(">", sq.n, 0), "ValueError", node)
    ks = sym_map(eng, st, sq, keyfn)
    w = eng.fresh_int("arg")
    j = z3.Int("q!%d" % next(eng.counter))
    n = toz(sq.n)
    best = ks.get(w)
    worse = lambda a, b: eng.order(st, "<=" if mode == "min" else ">=", a, b)
    strict = lambda a, b: eng.order(st, "<" if mode == "min" else ">", a, b)
    g = n > 0
    eng.fact(st, z3.Implies(g, z3.And(0 <= w, w < n)))
    eng.fact(st, z3.ForAll([j], z3.Implies(z3.And(g, 0 <= j, j < n), toz(worse(best, ks.get(j))))))
    eng.fact(st, z3.ForAll([j], z3.Implies(z3.And(g, 0 <= j, j < w), toz(strict(best, ks.get(j))))))
    return sq.get(w)


def sort_sym(eng, st, sq, keyfn, reverse=False, node=None):
    if sq.kind == "flat":
        raise Unsupported("sort of product")
    ks = sym_map(eng, st, sq, keyfn) if keyfn else sq
    n = toz(sq.n)
    P, Q = eng.fresh_fun("perm", 1), eng.fresh_fun("pinv", 1)
    i, j = z3.Int("i!%d" % next(eng.counter)), z3.Int("j!%d" % next(eng.counter))
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P(i), P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q(i), Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))
    o = ">=" if reverse else "<="
    eng.fact(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), toz(eng.order(st, o, ks.get(P(i)), ks.get(P(j))))),
                           patterns=[z3.MultiPattern(P(i), P(j))]))
    return Seq(sq.n, lambda x: sq.get(P(toz(x))), "perm", (sq, P, Q))


# ------------------------------------------------------------------ iterables
def iter_seq(eng, it, st, node=None):
    """-> [(state, Seq)] snapshot of an iterable"""
    if isinstance(it, Opt):
        eng.safety(st, Not(it.isnone), "TypeError", node)
        it = it.val
    if isinstance(it, ObjRef):
        f, _ = it.cls.lookup("__iter__")
        if f is not None:
            out = []
            for s, v in eng.call(Bound(f, it), [], {}, st, node):
                out += iter_seq(eng, v, s, node)
            return out
        raise Unsupported("iterate object")
    from .engine import NpArr
    if isinstance(it, NpArr):
        return [(st, it.seq)]
    if it is None:
        eng.safety_raise(st, "TypeError", node)
        return []
    return [(st, eng.seq_of(it, st))]


# ------------------------------------------------------------------ for loops
WIDE = False      # set for a last attempt at a proof: also sums and searches written as loops get a closed form in invariant mode


def builds(body):
    """only appends to local lists, possibly under conditions: a comprehension written as a loop (WIDE: also local variables and exits)"""
    for b in body:
        if isinstance(b, ast.If):
            if not builds(b.body) or not builds(b.orelse):
                return False
        elif WIDE and isinstance(b, (ast.Assign, ast.AugAssign)):
            if not all(isinstance(t, ast.Name) for t in (b.targets if isinstance(b, ast.Assign) else [b.target])):
                return False
        elif WIDE and isinstance(b, (ast.Return, ast.Break, ast.Continue, ast.Pass)):
            pass
        elif not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append"
                  and isinstance(b.value.func.value, ast.Name)):
            return False
    return True


def building(eng, node, st, sq, live):
    """the closed form of a loop that only builds a list, where loops otherwise go by invariants; None: no closed form"""
    if node.orelse or not builds(node.body) or sq.kind == "concat":
        return None
    nob = len(eng.obls)
    try:
        return sym_for(eng, node, st.copy(), sq, live)
    except Unsupported:
        eng.obls[nob:] = []
        return None


def exec_for(eng, node, st):
    out = []
    for s, it in eng.ev(node.iter, st):
        for s2, sq in iter_seq(eng, it, s, node):
            live = isinstance(it, ListRef) and not isinstance(it, (DictRef, SetRef))
            if sq.is_lit and sq.n <= eng.unroll_limit:
                out += unroll_for(eng, node, s2, sq, it if live else None)
            else:
                inv = eng.loop_hint(node)
                if inv is not None:
                    out += inv(eng, node, s2, sq)
                elif eng.loop_inv is not None and eng.inv_for:
                    from .invloop import exec_inv
                    got = building(eng, node, s2, sq, it if live else None)
                    out += got if got is not None else exec_inv(eng, node, s2, sq, it)
                elif sq.kind == "concat" and not node.orelse and not any(isinstance(x, ast.Break) for b in node.body for x in ast.walk(b)):
                    out += concat_for(eng, node, s2, sq, it if live else None)
                else:
                    out += sym_for(eng, node, s2, sq, it if live else None)
    return out


def concat_for(eng, node, st, sq, live):
    """a loop over a + b (without break) is the loop over a followed by the loop over b"""
    orig = st.heap[live.addr] if live is not None else None
    states, out = [st], []
    for part in sq.parts:
        new = []
        for s in states:
            if part.is_lit and part.n <= eng.unroll_limit:
                r = unroll_for(eng, node, s, part, None)
            elif part.kind == "concat":
                r = concat_for(eng, node, s, part, live)
            else:
                r = sym_for(eng, node, s, part, None)
            for s2, o in r:
                (new if o is None else out).append(s2 if o is None else (s2, o))
        states = new
    out += [(s, None) for s in states]
    if live is not None and any(s.heap[live.addr] is not orig for s, _ in out):
        raise Unsupported("loop changes the list it walks over")
    return out


def unroll_for(eng, node, st, sq, live):
    states = [(st, None)]
    done = []
    i = 0
    per_state_live = live is not None
    # lists are iterated live (python semantics): each state tracks its own list
    active = [st]
    k = 0
    while active:
        nxt = []
        for s in active:
            if per_state_live:
                cur = s.heap[live.addr].seq
                if not cur.is_lit:
                    raise Unsupported("list became symbolic while iterated")
                items = cur.items()
            else:
                items = sq.items()
            if k >= len(items):
                done.append((s, None))
                continue
            base = s.copy()
            for s2 in eng.assign(node.target, items[k], s):
                for s3, o in eng.exec_block(node.body, s2):
                    if s3.dead():
                        continue
                    if o is None or o[0] == "continue":
                        nxt.append(s3)
                    elif o[0] == "break":
                        done.append((s3, ("brk",)))
                    else:
                        done.append((s3, o))
        if len(nxt) > 1 and eng.merge_ok:
            nxt = [x for x, _ in eng.merge(st.copy_base(), [(x, None) for x in nxt])] if hasattr(st, "copy_base") else merge_states(eng, nxt)
        if len(nxt) > eng.path_limit:
            raise Unsupported("too many paths")
        active = nxt
        k += 1
        if k > 2000:
            raise Unsupported("unroll limit")
    res = []
    for s, o in done:
        if o is None:
            if node.orelse:
                res += eng.exec_block(node.orelse, s)
            else:
                res.append((s, None))
        elif o == ("brk",):
            res.append((s, None))
        else:
            res.append((s, o))
    normal = [x for x, o in res if o is None]
    if len(normal) > 1 and eng.merge_ok:
        res = [(x, None) for x in merge_states(eng, normal)] + [(x, o) for x, o in res if o is not None]
    return res


class _Base:
    def __init__(self):
        self.pc, self.frames, self.heap = [], {}, {}


def merge_states(eng, states):
    if len(states) > 24:
        return states
    return [x for x, _ in eng.merge(_Base(), [(x, None) for x in states])]


def counting(node):
    """while i < e: body; i += 1   ->   (i, e, body) when this is the same as going through range(i, e)"""
    t = node.test
    if node.orelse or len(node.body) < 2 or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt))):
        return None
    l, e = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left)
    if not isinstance(l, ast.Name):
        return None
    i, body, inc = l.id, node.body[:-1], node.body[-1]
    one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and x.value is not True
    if isinstance(inc, ast.AugAssign):
        good = isinstance(inc.target, ast.Name) and inc.target.id == i and isinstance(inc.op, ast.Add) and one(inc.value)
    else:
        v = getattr(inc, "value", None)
        good = (isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and inc.targets[0].id == i
                and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == i and one(v.right))
    inner = [m for b in body for m in ast.walk(b)]
    if not good or any(isinstance(m, (ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Delete)) for m in inner):
        return None
    stored = {m.id for m in inner if isinstance(m, ast.Name) and not isinstance(m.ctx, ast.Load)}
    if i in stored:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return i, e, body
    if isinstance(e, ast.Name) and e.id not in stored and e.id != i:
        return i, e, body
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id not in stored:
        # the length stays: the sequence is only read by subscript
        x = e.args[0].id
        reads = {id(m.value) for m in inner if isinstance(m, ast.Subscript) and isinstance(m.ctx, ast.Load)}
        if all(id(m) in reads for m in inner if isinstance(m, ast.Name) and m.id == x):
            return i, e, body
    return None


def exec_while(eng, node, st):
    inv = eng.loop_hint(node)
    if inv is not None:
        return inv(eng, node, st, None)
    c = counting(node)
    if c is not None:
        i, e, body = c
        i0, e0 = "w0_%s" % i, "w1_%s" % i
        nm = lambda x: ast.Name(x, ast.Load())
        put = lambda x, v: ast.Assign([ast.Name(x, ast.Store())], v, lineno=node.lineno)
        loop = ast.For(ast.Name(i, ast.Store()), ast.Call(nm("range"), [nm(i0), nm(e0)], []), body,
                       [put(i, ast.IfExp(ast.Compare(nm(i0), [ast.Lt()], [nm(e0)]), nm(e0), nm(i0)))], lineno=node.lineno)
        blk = [put(i0, nm(i)), put(e0, e), loop]
        for b in blk:
            ast.copy_location(b, node)
            ast.fix_missing_locations(b)
        node.as_for = blk = getattr(node, "as_for", blk)      # the same nodes every time
        return eng.exec_block(blk, st)
    if eng.loop_inv is not None:
        from .invloop import exec_inv
        return exec_inv(eng, node, st)
    done = []
    active = [st]
    k = 0
    while active:
        nxt = []
        for s in active:
            for s2, v in eng.ev(node.test, s):
                for s3, side in eng.fork(s2, eng.truth(v, s2)):
                    if not side:
                        done.append((s3, None))
                        continue
                    for s4, o in eng.exec_block(node.body, s3):
                        if s4.dead():
                            continue
                        if o is None or o[0] == "continue":
                            nxt.append(s4)
                        elif o[0] == "break":
                            done.append((s4, ("brk",)))
                        else:
                            done.append((s4, o))
        if len(nxt) > 1 and eng.merge_ok:
            nxt = merge_states(eng, nxt)
        if len(nxt) > eng.path_limit:
            raise Unsupported("too many paths")
        active = nxt
        k += 1
        if k > eng.while_limit:
            raise Unsupported("while loop does not terminate within the unrolling limit")
    res = []
    for s, o in done:
        if o is None and node.orelse:
            res += eng.exec_block(node.orelse, s)
        else:
            res.append((s, None if o == ("brk",) else o))
    normal = [x for x, o in res if o is None]
    if len(normal) > 1 and eng.merge_ok:
        res = [(x, None) for x in merge_states(eng, normal)] + [(x, o) for x, o in res if o is not None]
    return res


# ------------------------------------------------------------------ symbolic for loops
class Loc:
    """a modified location: ('v', frame, name) or ('h', addr) (list) or ('o', addr, field) or ('f', key) field map"""
    pass


def diff_locs(a, b):
    """locations of state a that differ in state b"""
    out = set()
    for f in a.frames:
        fb = b.frames.get(f)
        if fb is None:
            continue
        for n in fb:
            if n not in a.frames[f]:
                out.add(("n", f, n))
            elif fb[n] is not a.frames[f][n]:
                x, y = fb[n], a.frames[f][n]
                if isinstance(x, (ListRef, ObjRef)) and x == y:
                    continue
                if is_z3(x) and is_z3(y) and z3.eq(x, y):
                    continue
                out.add(("v", f, n))
    for addr in a.heap:
        p, q = a.heap[addr], b.heap.get(addr)
        if p is q:
            continue
        if q is GONE:
            continue    # moved into a symbolic dictionary; using the old address is unsupported
        if isinstance(p, HeapList):
            out.add(("h", addr))
        elif isinstance(p, HeapObj):
            for fl in q.fields:
                if fl not in p.fields:
                    out.add(("on", addr, fl))
                elif q.fields[fl] is not p.fields[fl]:
                    x, y = q.fields[fl], p.fields[fl]
                    if isinstance(x, (ListRef, ObjRef)) and x == y:
                        continue
                    out.add(("o", addr, fl))
        elif isinstance(p, FMap):
            out.add(("f", addr))
        elif isinstance(p, HeapDict):
            out.add(("d", addr))
        elif isinstance(p, HeapSet):
            out.add(("s", addr))
        else:
            raise Unsupported("heap change")
    for addr in b.heap:
        if addr not in a.heap and isinstance(addr, tuple):
            out.add(("f", addr))
    return out


def read_loc(s, l):
    if l[0] == "lv":
        return s.heap[s.frames[l[1]][l[2]].addr].seq
    if l[0] in ("v", "n"):
        return s.frames[l[1]].get(l[2])
    if l[0] == "h":
        return s.heap[l[1]].seq
    if l[0] in ("o", "on"):
        return s.heap[l[1]].fields.get(l[2])
    if l[0] == "f":
        return s.heap.get(l[1])
    raise Unsupported("location %s in symbolic loop" % (l[0],))


def write_loc(s, l, v, eng=None):
    if l[0] == "lv":
        a = next(_HOLE) + 10 ** 9
        s.heap[a] = HeapList(v)
        s.frames[l[1]][l[2]] = ListRef(a)
    elif l[0] in ("v", "n"):
        s.frames[l[1]][l[2]] = v
    elif l[0] == "h":
        s.heap[l[1]] = HeapList(v)
    elif l[0] in ("o", "on"):
        h = s.heap[l[1]]
        fl = dict(h.fields)
        fl[l[2]] = v
        s.heap[l[1]] = HeapObj(h.cls, fl)
    elif l[0] == "f":
        s.heap[l[1]] = v
    else:
        raise Unsupported("location")


def read_addr(s, l):
    v = s.frames[l[1]].get(l[2])
    return v.addr if isinstance(v, ListRef) else None


class PH:
    """placeholder record"""

    def __init__(self, loc, pre, val, names, kind):
        self.loc, self.pre, self.val, self.names, self.kind = loc, pre, val, names, kind


def make_ph(eng, loc, pre, sort_hint=None):
    """placeholder for the value of a location at the start of the current iteration: a function of the active
    loop indices, so that its value at any iteration m is obtained by substitution"""
    n = "ph!%d" % next(eng.counter)
    cs = [c.sort() for c in eng.ctx]

    def app(suffix, sort, *extra):
        return z3.Function(n + suffix, *(cs + [e.sort() for e in extra] + [sort]))(*(list(eng_ctx) + list(extra)))
    eng_ctx = list(eng.ctx)
    if is_bool(pre) and sort_hint in (None, "bool"):
        return PH(loc, pre, app("", z3.BoolSort()), {n}, "bool")
    if is_inf(pre):
        raise NeedPeel("infinite initial value")
    if is_num(pre) or (is_bool(pre) and sort_hint in ("int", "real")):
        so = z3.IntSort() if (is_int(num(pre)) and sort_hint != "real") else z3.RealSort()
        return PH(loc, pre, app("", so), {n}, "num")
    if pre is None or isinstance(pre, Opt):
        raise NeedPeel("optional initial value")
    if isinstance(pre, Seq):
        nn = app("n", z3.IntSort())
        kind = None
        if not (pre.is_lit and pre.n == 0):
            try:
                kind = pre.get(z3.Int("i?"))
            except Unsupported:
                kind = None
        elem = None
        if is_bool(kind):
            elem = lambda i: app("e", z3.BoolSort(), toz(i))
        elif is_num(kind):
            so = z3.IntSort() if is_int(num(kind)) and sort_hint != "real" else z3.RealSort()
            elem = lambda i: app("e", so, toz(i))
        elif (isinstance(kind, Seq) and kind.vec is not None) or (kind is None and eng.list_elem == "vec"):
            elem = lambda i: Seq.ofvec(app("e", Vec, toz(i)))
        elif isinstance(kind, SymObj):
            elem = lambda i: SymObj(kind.cls, app("e", z3.IntSort(), toz(i)))
        elif isinstance(kind, Seq) and pre.own:
            x = inner_shape(kind)
            if x is not None:
                f = (lambda t: SymObj(x.cls, t)) if isinstance(x, SymObj) else (lambda t: t)
                so = z3.IntSort() if isinstance(x, SymObj) or is_int(num(x)) else z3.RealSort()
                elem = lambda i: Seq(app("len", z3.IntSort(), toz(i)), lambda j: f(app("el", so, toz(i), toz(j))))
        elif is_str(kind):
            elem = lambda i: app("e", STR, toz(i))
        elif isinstance(kind, tuple) and kind and all(simple_shape(x) for x in kind):
            def part(x, c, i):
                if isinstance(x, SymObj):
                    return SymObj(x.cls, app("e%d" % c, z3.IntSort(), toz(i)))
                if is_str(x):
                    return app("e%d" % c, STR, toz(i))
                if isinstance(x, Seq):
                    return Seq.ofvec(app("e%d" % c, Vec, toz(i)))
                return app("e%d" % c, z3.BoolSort() if is_bool(x) else z3.IntSort() if is_int(num(x)) else z3.RealSort(), toz(i))
            elem = lambda i: tuple(part(x, c, i) for c, x in enumerate(kind))
        elif kind is None and eng.list_elem is not None:
            elem = lambda i: eng.list_elem(app, i)

        def get(i):
            if elem is None:
                raise Unsupported("read of a list that the loop is changing")
            return elem(i)
        ph = PH(loc, pre, Seq(nn, get, "ph", n), {n, n + "n", n + "e", n + "len", n + "el"} | {n + "e%d" % c for c in range(8)}, "list")
        ph.val.own = pre.own
        return ph
    if isinstance(pre, FMap):
        return PH(loc, pre, FMap(_ph_get(pre, n)), {n + "e", n + "ev"}, "fmap")
    from .engine import Broken
    if loc[0] == "v" and not isinstance(pre, (ListRef, ObjRef)):
        # a local that the body overwrites: unusable before it is written, and after the loop
        return PH(loc, pre, Broken("local %s carried around a loop" % loc[2]), set(), "broken")
    raise Unsupported("loop changes a %s" % type(pre).__name__)


def simple_shape(x):
    return isinstance(x, SymObj) or is_num(x) or is_bool(x) or is_str(x) or isinstance(x, Seq) and x.vec is not None


def inner_shape(sq):
    """sample element of a list inside a list"""
    try:
        x = sq.get(z3.Int("j?")) if not sq.is_lit else sq.get(0) if sq.n else None
    except Unsupported:
        return None
    return x if isinstance(x, SymObj) or is_num(x) and not is_bool(x) else None


def _ph_get(pre, n):
    def get(t):
        ex = pre.get(t)
        if isinstance(ex, Seq):
            raise Unsupported("field of sequences changed by loop")
        if isinstance(ex, Opt):
            if not is_num(ex.val):
                raise Unsupported("optional field changed by loop")
            return Opt(z3.Function(n + "e", z3.IntSort(), z3.BoolSort())(t), z3.Function(n + "ev", z3.IntSort(), z3.RealSort())(t))
        if is_bool(ex):
            return z3.Function(n + "e", z3.IntSort(), z3.BoolSort())(t)
        if is_num(ex):
            return z3.Function(n + "e", z3.IntSort(), z3.IntSort() if is_int(num(ex)) else z3.RealSort())(t)
        raise Unsupported("field read in loop")
    return get


class NeedPeel(Exception):
    pass


def sym_for(eng, node, st, sq, live, depth=0, lo=0, pre_peeled=False):
    """symbolic loop; may fork on emptiness and peel the first iteration"""
    snap = (list(eng.obls), [list(x) for x in eng.raised], list(eng.ctx), list(eng.index_consts))
    st0 = st.copy()
    try:
        return sym_for_core(eng, node, st, sq, live)
    except (NeedPeel, Unsupported) as ex:
        if pre_peeled or depth > 0:
            raise Unsupported(str(ex) or "loop does not fit a closed form")
        eng.obls[:] = snap[0]
        eng.raised[:] = [list(x) for x in snap[1]]
        eng.ctx[:] = snap[2]
        why = str(ex)
    # peel: n == 0 | first iteration, then the rest
    out = []
    s = st0
    for s2, pos in eng.fork(s, cmp(">", sq.n, 0)):
        if not pos:
            out += eng.exec_block(node.orelse, s2) if node.orelse else [(s2, None)]
            continue
        for s3 in eng.assign(node.target, sq.get(0), s2):
            for s4, o in eng.exec_block(node.body, s3):
                if o is None or o[0] == "continue":
                    rest = Seq(sub(sq.n, 1), _shift(sq.get), "fn")
                    # the remaining iterations only happen when there are any
                    out += sym_for(eng, node, s4, rest, live, depth + 1, 0, True)
                elif o[0] == "break":
                    out.append((s4, None))
                else:
                    out.append((s4, o))
    normal = [x for x, o in out if o is None]
    if len(normal) > 1 and eng.merge_ok:
        out = [(x, None) for x in merge_states(eng, normal)] + [(x, o) for x, o in out if o is not None]
    return out


def _shift(get):
    return lambda i: get(add(i, 1))


def flat_for(eng, node, st, sq):
    """a loop over a flattened product whose body changes nothing (it only reports)"""
    with BodyCtx(eng, st, sq.parts[0]) as b:
        if sq.parts[1] is not None:
            b.s.assume(sq.parts[1](b.k))
        block = sq.parts[2](b.k)
        if block.kind == "flat":
            raise Unsupported("loop over product")
        with BodyCtx(eng, b.s, block.n) as c:
            base = c.s.copy()
            eng.raised.append([])
            res = []
            try:
                for s2 in eng.assign(node.target, block.get(c.k), c.s):
                    res += eng.exec_block(node.body, s2)
            finally:
                rs = eng.raised.pop()
            tn = target_names(node.target)
            for x, o in res:
                if o is not None and o[0] != "continue":
                    raise Unsupported("loop over product")
                if any(not (l[0] in ("n", "on") or (l[0] == "v" and l[1] == st.cur and l[2] in tn)) for l in diff_locs(base, x)):
                    raise Unsupported("loop over product")
            if rs or not res or node.orelse:
                raise Unsupported("loop over product")
    for t in tn:
        st.frames[st.cur].pop(t, None)
    return [(st, None)]


def sym_for_core(eng, node, st, sq, live):
    if sq.kind == "flat":
        return flat_for(eng, node, st, sq)
    n = sq.n
    nobl0 = len(eng.obls)
    # 1. discover modified locations
    mod, sorts = set(), {}
    for rnd in range(8):
        eng.obls[nobl0:] = []
        with BodyCtx(eng, st, n) as b:
            k = b.k
            s = b.s
            phs = []
            for l in sorted(mod, key=str):
                pre = read_loc(st, l)
                ph = make_ph(eng, l, pre, sorts.get(l))
                phs.append(ph)
                write_loc(s, l, ph.val)
                if ph.kind == "list":
                    s.facts.append(ph.val.n >= 0)
            base = s.copy()
            old = set(s.heap)
            eng.raised.append([])
            res = []
            try:
                for s2 in eng.assign(node.target, sq.get(k), s):
                    res += eng.exec_block(node.body, s2)
            finally:
                rs = eng.raised.pop()
            res += [(x, ("raise", exc)) for x, exc in rs]
            res = [(x, o) for x, o in res if not x.dead()]
            normal = [x for x, o in res if o is None or o[0] == "continue"]
            exits = [(x, o) for x, o in res if o is not None and o[0] != "continue"]
            if len(normal) > 1:
                normal = [x for x, _ in eng.merge(base, [(x, None) for x in normal])]
            if len(normal) > 1:
                raise Unsupported("loop body paths cannot be merged")
            newmod = set()
            for x in normal + [x for x, _ in exits]:
                newmod |= {l for l in diff_locs(base, x)}
            # new names (loop target, locals) are ignored unless present before
            tn = target_names(node.target)
            add_ = set()
            for l in newmod:
                if l[0] in ("n", "on"):
                    continue
                if l[0] == "v" and l[1] == st.cur and l[2] in tn:
                    continue
                if l[0] in ("d", "s"):
                    raise Unsupported("dict/set changed in symbolic loop")
                if l[0] == "v":
                    pv = base.frames[l[1]].get(l[2])
                    if isinstance(pv, ListRef) and not isinstance(pv, (DictRef, SetRef)):
                        l = ("lv",) + l[1:]
                if l[0] == "h" and any(m_[0] == "lv" and read_addr(base, m_) == l[1] for m_ in mod):
                    continue
                add_.add(l)
            grow = add_ - mod
            for l in list(add_ | mod):
                for x in normal:
                    v = read_loc(x, l)
                    pre = read_loc(st, l)
                    if is_num(v) and not is_bool(v) and (is_bool(pre) or is_int(num(pre)) if is_scalar(pre) and not is_inf(pre) else False):
                        h = "int" if is_int(num(v)) else "real"
                        if sorts.get(l) not in (h, "real") and not (h == "int" and not is_bool(pre)):
                            sorts[l] = h
                            grow = grow | {l}
            if not grow:
                break
            mod |= grow
    else:
        raise Unsupported("modified locations do not stabilise")
    if live is not None and ("h", live.addr) in mod:
        raise Unsupported("list modified while iterated")
    body_obls = eng.obls[nobl0:]
    eng.obls[nobl0:] = []

    # 2. solve the updates
    names_all = set().union(*[p.names for p in phs]) if phs else set()
    closed = {}     # loc -> function m -> value at the start of iteration m
    after = {}
    pending = list(phs)
    pairs_cache = []

    normal_state = normal[0] if normal else None
    if normal_state is None and phs:
        raise Unsupported("loop body never completes normally")

    def repl(v, pairs):
        return subst(v, pairs)

    resolved_pairs = []   # placeholder const -> closed form at k

    progress = True
    while pending and progress:
        progress = False
        for ph in list(pending):
            U = read_loc(normal_state, ph.loc)
            others = set().union(*[p.names for p in pending if p is not ph]) if len(pending) > 1 else set()
            if ph.kind == "broken":
                cf = (lambda b_: lambda m: b_)(ph.val)
            elif ph.kind == "list":
                cf = solve_list(eng, ph, U, k, n, others, resolved_pairs, closed, phs, normal_state, st, old)
            elif ph.kind == "fmap":
                cf = solve_fmap(eng, ph, U, k, n, others, resolved_pairs, st, base, normal_state)
            else:
                U2 = subst_ph(U, phs, closed, k)
                if is_scalar(U2) and consts_in(U2, others):
                    continue
                cf = solve_scalar(eng, ph, U2, k, n, st, normal_state, b)
            if cf is None:
                continue
            closed[ph.loc] = cf
            pending.remove(ph)
            progress = True
    inv_k = []
    inv_at = None
    if pending:
        if not eng.inv_cands or any(p.kind == "fmap" for p in pending):
            raise Unsupported("no closed form for %s" % ", ".join(str(p.loc[2] if len(p.loc) > 2 else p.loc[0]) for p in pending))
        inv_at = houdini(eng, node, pending, closed, phs, k, n, sq, st, normal_state, b)
        names_all = names_all - set().union(*[p.names for p in pending])
        inv_k = inv_at(k)

    # 3. obligations of the body with the closed forms substituted
    pst = [p for p in phs if p.kind == "list" and getattr(closed.get(p.loc), "pstore", False)]
    pctx = [c for c in st.pc + st.facts if is_z3(c) and not eng._hasq(c)] + [k >= 0] if pst else []

    def S(v):
        v = subst_ph(v, phs, closed, k)
        if pst and is_z3(v):
            # an element at index k or beyond is still the original one
            for p in pst:
                v = rewrite_fun(v, p.val.parts + "e", p.pre, k, pctx)
        return v

    exit_conds = []
    for x, o in exits:
        extra = x.pc[b.npc:]
        exit_conds.append(S(And(*extra)))
    anyexit = Or(*exit_conds) if exit_conds else False
    j = z3.Int("j!%d" % next(eng.counter))
    noexit_before = True
    if anyexit is not False:
        noexit_before = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), Not(toz(subst(anyexit, [(k, j)])))))
    for ob in body_obls:
        ob.hyps = [S(h) if is_z3(h) else h for h in ob.hyps]
        if noexit_before is not True:
            ob.hyps.append(noexit_before)
        ob.hyps += inv_k
        ob.goal = S(ob.goal) if is_z3(ob.goal) else ob.goal
        eng.obls.append(ob)

    # 4. facts
    for s in ([normal_state] if normal_state is not None else []) + [x for x, _ in exits]:
        for f in s.facts[b.nfacts:]:
            g = S(f)
            if isinstance(g, bool):
                continue
            acc = set()
            solve.decls(g, acc, set())
            if acc & names_all:
                continue     # mentions a placeholder that has no scalar closed form (lists): drop
            g = generalise(k, 0, n, g)
            if not any(z3.eq(g, h) for h in st.facts if is_z3(h)):
                st.facts.append(g)

    # 5. results
    out = []
    # 5a early exits
    k0s = [eng.fresh_int("exit") for _ in exits]
    if eng.ctx and exits and anyexit is not False and inv_at is None:
        # an exit index is the first index that exits, whenever there is one (least number principle: it is chosen so)
        none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(n)), Not(toz(subst(anyexit, [(k, j)])))))
        alts = [z3.And(k0 >= 0, k0 < toz(n), toz(subst(c, [(k, k0)])), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0), Not(toz(subst(anyexit, [(k, j)])))))) for k0, c in zip(k0s, exit_conds)]
        st.facts.append(z3.Or(none, *alts))
    for (x, o), c, k0 in zip(exits, exit_conds, k0s):
        s2 = st.copy()
        s2.assume(k0 >= 0)
        s2.assume(k0 < toz(n))
        s2.assume(toz(subst(c, [(k, k0)])))
        if anyexit is not False:
            s2.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0), Not(toz(subst(anyexit, [(k, j)]))))))
        if inv_at is not None:
            for f in inv_at(k0):
                s2.assume(f)
        copy_exit(eng, st, x, s2, phs, closed, k, k0, base)
        if o[0] == "break":
            out.append((s2, None))
        elif o[0] == "return":
            v = o[1]
            if isinstance(v, (ListRef, DictRef, SetRef)) and v.addr not in st.heap:
                v = freeze(eng, v, x, set(st.heap))
                v = eng.new_list(s2, subst(S(v), [(k, k0)]))
            else:
                v = subst(S(v), [(k, k0)])
            out.append((s2, ("return", v)))
        else:
            out.append((s2, o))
    # 5b normal completion
    if normal_state is not None or not exits or True:
        s2 = st
        if anyexit is not False:
            s2 = st.copy()
            s2.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toz(n)), Not(toz(subst(anyexit, [(k, j)]))))))
        nz = ite(cmp(">", n, 0), n, 0) if not eng.entails_quick(st, cmp(">=", n, 0)) else n
        for ph in phs:
            write_loc(s2, ph.loc, closed[ph.loc](nz))
        if inv_at is not None:
            for f in inv_at(nz):
                s2.assume(f)
        # loop targets and locals keep their last value when there was an iteration
        fr = s2.frames[st.cur]
        if normal_state is not None:
            last = sub(n, 1)
            nfr = normal_state.frames.get(st.cur, {})
            for nm in set(nfr):
                if nm.startswith("__"):
                    continue
                if ("v", st.cur, nm) in mod or ("lv", st.cur, nm) in mod:
                    continue
                if nm in fr and nfr[nm] is fr[nm]:
                    continue
                v = nfr[nm]
                try:
                    if isinstance(v, ListRef) and v.addr not in st.heap:
                        raise Unsupported("local list")
                    vv = subst(S(v), [(k, toz(last))])
                    if terms_have(vv, names_all):
                        raise Unsupported("x")
                    if nm in fr:
                        fr[nm] = ite(cmp(">", n, 0), vv, fr[nm])
                    elif eng.entails_quick(st, cmp(">", n, 0)):
                        fr[nm] = vv
                    else:
                        from .engine import Broken
                        fr[nm] = Broken("loop variable %s read after a possibly empty loop" % nm)
                except Unsupported:
                    from .engine import Broken
                    fr[nm] = Broken("loop local %s read after loop" % nm)
        if eng.feasible(s2):
            if node.orelse:
                out += eng.exec_block(node.orelse, s2)
            else:
                out.append((s2, None))
    return out


def terms_have(v, names):
    return bool(consts_in(v, names))


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def copy_exit(eng, st, x, s2, phs, closed, k, k0, base):
    """state at an early exit: modified locations take the exit path's values with k := k0"""
    S = lambda v: subst(subst_ph(v, phs, closed, k), [(k, k0)])
    lvs = {p.loc for p in phs if p.loc[0] == "lv"}
    for l in {l for l in diff_locs(base, x) if not (l[0] == "v" and ("lv",) + l[1:] in lvs) and not (l[0] == "h" and l[1] not in st.heap)} | {p.loc for p in phs}:
        if l[0] in ("d", "s"):
            raise Unsupported("dict/set changed on loop exit")
        try:
            v = read_loc(x, l)
            if l[0] in ("v", "n", "o", "on") and isinstance(v, ListRef) and v.addr not in st.heap:
                v = eng.new_list(s2, S(freeze(eng, v, x, set(st.heap))))
            elif l[0] == "h" and isinstance(v, Seq) and l[1] in s2.heap:
                p = [q for q in phs if q.loc == l]
                if p and v is p[0].val:
                    v = closed[l](k0)
                elif p and v.kind == "append" and v.parts[0] is p[0].val:
                    v = closed[l](k0).append(S(v.parts[1]))
                else:
                    v = S(v)
            else:
                v = S(v)
            write_loc(s2, l, v)
        except Unsupported as ex:
            if l[0] in ("v", "n"):
                from .engine import Broken
                s2.frames[l[1]][l[2]] = Broken(str(ex))
            else:
                raise


def subst_ph(v, phs, closed, k):
    """replace placeholders by their closed forms at index k"""
    pairs = []
    for p in phs:
        if p.loc in closed:
            if p.kind in ("num", "bool"):
                c = closed[p.loc](k)
                t = toz(c)
                if p.val.sort() != t.sort():
                    t = toreal(c) if p.val.sort() == z3.RealSort() else toz(num(c))
                pairs.append((p.val, t))
            elif p.kind == "list":
                c = closed[p.loc](k)
                try:
                    pairs.append((p.val.n, toz(c.n)))
                except Unsupported:
                    pass
    return subst(v, pairs) if pairs else v


def pre_as(v, sort):
    if sort == z3.RealSort():
        return toreal(v)
    if sort == z3.IntSort():
        return toz(num(v))
    return toz(v)


def valid(fs, goal, timeout=1500):
    if isinstance(goal, bool):
        return goal
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    r, _ = check([f for f in fs if is_z3(f)] + [z3.Not(g)], timeout=timeout)
    return r == z3.unsat


def leaves(u, acc):
    if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
        leaves(u.arg(1), acc)
        leaves(u.arg(2), acc)
    else:
        if not any(z3.eq(u, a) for a in acc):
            acc.append(u)
    return acc


def prune(fs, u, budget=None):
    """drop the branches of conditionals that the context rules out"""
    budget = budget if budget is not None else [12]
    if not (z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE) or budget[0] <= 0:
        return u
    budget[0] -= 1
    c = u.arg(0)
    if valid(fs, c, 400):
        return prune(fs, u.arg(1), budget)
    if valid(fs, z3.Not(c), 400):
        return prune(fs, u.arg(2), budget)
    return z3.If(c, prune(fs + [c], u.arg(1), budget), prune(fs + [z3.Not(c)], u.arg(2), budget))


def solve_scalar(eng, ph, U, k, n, st, ns, b):
    p = ph.val
    sort = p.sort()
    Uz = pre_as(U, sort) if not isinstance(U, (Opt, Seq, tuple)) and is_scalar(U) and not is_inf(U) else None
    if Uz is None:
        raise Unsupported("loop value of kind %s" % type(U).__name__)
    pname = p.decl().name()
    if consts_in(Uz, {pname}):
        Uz = prune([f for f in eng.hyps(ns) if is_z3(f) and not eng._hasq(f)], Uz)
    ctxf = [f for f in ns.pc + ns.facts if is_z3(f) and not eng._hasq(f)]
    pre = pre_as(ph.pre, sort)
    # last value
    if not consts_in(Uz, {pname}):
        if z3.eq(z3.simplify(Uz), z3.simplify(pre)):
            return lambda m: ph.pre

        def cf(m, Uz=Uz):
            m = conc(m)
            if isinstance(m, int):
                return ph.pre if m == 0 else subst(Uz, [(k, z3.IntVal(m - 1))])
            return ite(m > 0, subst(Uz, [(k, m - 1)]), ph.pre)
        return cf
    if sort == z3.BoolSort():
        ut, uf = z3.simplify(z3.substitute(Uz, (p, z3.BoolVal(True)))), z3.simplify(z3.substitute(Uz, (p, z3.BoolVal(False))))
        jj = z3.Int("q!%d" % next(eng.counter))
        if valid(ctxf, ut):
            return lambda m: Or(ph.pre, z3.Exists([jj], z3.And(0 <= jj, jj < toz(m), z3.substitute(uf, (k, jj)))))
        if valid(ctxf, z3.Not(uf)):
            return lambda m: And(ph.pre, z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < toz(m)), z3.substitute(ut, (k, jj)))))
        return None
    # sum: U - p independent of p
    zero = z3.IntVal(0) if sort == z3.IntSort() else z3.RealVal(0)
    d0 = z3.simplify(z3.substitute(Uz, (p, zero)))
    if valid(ctxf, Uz == p + d0):
        cl = eng.bigops.sum(d0, k)
        return lambda m: add(ph.pre, cl(m))
    # extrema
    for leaf in leaves(z3.simplify(Uz, ite_extra_rules=False), []):
        if consts_in(leaf, {pname}):
            continue
        for mode in ("max", "min"):
            ext = z3.If(leaf > p, leaf, p) if mode == "max" else z3.If(leaf < p, leaf, p)
            if valid(ctxf, Uz == ext):
                cl = eng.bigops.ext(leaf, k, mode)
                # value before the loop already counts
                pre0 = ph.pre
                v0 = subst(leaf, [(k, z3.IntVal(-1))])
                if valid([f for f in st.pc + st.facts if is_z3(f) and not eng._hasq(f)], pre_as(pre0, sort) == toz(v0)):
                    # peeled loop: fold the first element back in
                    e2 = z3.simplify(subst_shift(leaf, k))
                    cl2 = eng.bigops.ext(e2, k, mode)
                    return lambda m: cl2(add(m, 1))

                def cf(m, cl=cl, mode=mode):
                    c = cl(m)
                    better = cmp(">" if mode == "max" else "<", c, pre0)
                    return ite(And(cmp(">", m, 0), better), c, pre0)
                return cf
            # the first iteration overwrites, the later ones improve: the extremum of the elements alone
            if valid(ctxf, Uz == z3.If(k == 0, leaf, ext)):
                cl = eng.bigops.ext(leaf, k, mode)

                def cf0(m, cl=cl):
                    m = conc(m)
                    if isinstance(m, int):
                        return cl(m) if m > 0 else ph.pre
                    return cl(m) if eng.entails_quick(st, m > 0) else ite(m > 0, cl(m), ph.pre)
                return cf0
            # conditional extremum: U == (cond ? ext : p)
    return None


def subst_shift(e, k):
    return z3.substitute(e, (k, k - 1))


def lit_of(seq):
    return seq


def refs_to(st, addr):
    """how many frame variables, list items, fields, ... of a state mention a heap address"""
    cnt = 0

    def visit(v):
        nonlocal cnt
        if isinstance(v, (ListRef, ObjRef)):
            cnt += v.addr == addr
        elif isinstance(v, Seq):
            if v.is_lit and v.kind in ("lit",):
                for x in v.items():
                    visit(x)
            elif v.kind in ("append", "store", "concat", "ite"):
                for x in v.parts:
                    visit(x)
        elif isinstance(v, (tuple, list)):
            for x in v:
                visit(x)
        elif isinstance(v, dict):
            for a, b in v.items():
                visit(a), visit(b)
        elif isinstance(v, Opt):
            visit(v.val)
        elif isinstance(v, Bound):
            visit(v.self_val)
        elif isinstance(v, Partial):
            visit(v.args), visit(v.kwargs)
    for fr in st.frames.values():
        for k, v in fr.items():
            visit(v)
    for o in st.heap.values():
        if isinstance(o, HeapList):
            visit(o.seq)
        elif isinstance(o, HeapObj):
            visit(o.fields)
        elif isinstance(o, (HeapDict, HeapSet)):
            visit(list(o.items))
    return cnt


def freeze_private(pre, st):
    """the lists inside `pre` that nothing else refers to, as immutable sequences (later in-place changes are then out of reach)"""
    if not (isinstance(pre, Seq) and pre.is_lit):
        return pre
    if not any(isinstance(x, ListRef) and not isinstance(x, (DictRef, SetRef)) for x in pre.items()):
        return pre
    return Seq.lit([st.heap[x.addr].seq if isinstance(x, ListRef) and not isinstance(x, (DictRef, SetRef)) and refs_to(st, x.addr) <= 1 else x for x in pre.items()])


def solve_list(eng, ph, U, k, n, others, rp, closed, phs, ns, st, old):
    P = ph.val
    if U is P:
        return lambda m: ph.pre
    # append of one element / conditionally
    def flat(u):
        """-> list of (cond, [appended...]) or None"""
        if u is P:
            return [(True, [])]
        if u.kind == "append":
            r = flat(u.parts[0])
            return None if r is None else [(c, xs + [u.parts[1]]) for c, xs in r]
        if u.kind == "concat":
            r = flat(u.parts[0])
            if r is None or not u.parts[1].is_lit:
                return None
            return [(c, xs + list(u.parts[1].items())) for c, xs in r]
        if u.kind == "ite":
            c, a, b_ = u.parts
            ra, rb = flat(a), flat(b_)
            if ra is None or rb is None:
                return None
            return [(And(c, x), xs) for x, xs in ra] + [(And(Not(c), x), xs) for x, xs in rb]
        return None

    r = flat(U)
    S = lambda v: subst_ph(v, phs, closed, k)
    if r is not None:
        r = [(S(c), [S(freeze(eng, x, ns, old)) for x in xs]) for c, xs in r]
        if any(consts_in((c,) + tuple(xs), others | ph.names) for c, xs in r):
            return None
        lens = {len(xs) for _, xs in r}
        pre = freeze_private(ph.pre, st)
        if lens == {1}:
            v = r[0][1][0]
            for c, xs in r[1:]:
                v = ite(c, xs[0], v)
            g = _at(v, k)

            def cf(m):
                m = conc(m)
                tail = Seq(m, g)
                return tail if (pre.is_lit and pre.n == 0) else pre.concat(tail)
            return cf
        if lens == {0, 1}:
            cond, v = False, None
            for c, xs in r:
                if xs:
                    cond = Or(cond, c)
                    v = xs[0] if v is None else ite(c, xs[0], v)
            cg, vg = _at(cond, k), _at(v, k)
            cache = {}

            def cf(m):
                key = m.get_id() if is_z3(m) else m
                if key not in cache:
                    cache[key] = (mk_filter(eng, st, m, cg, vg), m)
                tail = cache[key][0]
                return tail if (pre.is_lit and pre.n == 0) else pre.concat(tail)
            return cf
        if lens == {0}:
            return lambda m: pre
        return None

    # parallel store at index k (any store whose index is k)
    def stores(u):
        """-> (value of element k after the iteration) when u only stores at k"""
        if u is P:
            return P.get(k)
        if u.kind == "store":
            base, j, x = u.parts
            if not (is_z3(j) and valid([f for f in ns.pc if is_z3(f) and not eng._hasq(f)], j == k)):
                return None
            stores(base)
            return x
        if u.kind == "ite":
            c, a, b_ = u.parts
            x, y = stores(a), stores(b_)
            if x is None or y is None:
                return None
            return ite(c, x, y)
        return None
    x = stores(U)
    if x is None:
        return None
    x = S(freeze(eng, x, ns, old))
    pre = ph.pre
    # stores keep the length - of this list and of the others that are only stored into
    lens = [(q.val.n, toz(q.pre.n)) for q in phs if q.kind == "list" and is_z3(q.val.n) and (q is ph or keeps_length(read_loc(ns, q.loc), q.val))]
    if lens:
        x = subst(x, lens)
    # element k before iteration k is still the original one
    f = (ph.val.parts + "e") if is_scalar(x) or isinstance(x, (Seq, tuple)) else None
    ctxf = [c for c in st.pc + st.facts if is_z3(c) and not eng._hasq(c)] + [k >= 0]
    if f is not None:
        # neither this list nor the others that are only stored into at index k have been touched at k or beyond
        for q in phs:
            if q.kind == "list" and (q is ph or only_at(eng, read_loc(ns, q.loc), q.val, k, ns)):
                x = rewrite_val(x, q.val.parts + "e", q.pre, k, ctxf)
    if consts_in(x, others | {ph.val.parts + "n"}):
        return None
    if f is not None and consts_in(x, {ph.val.parts + "e"}):
        raise Unsupported("loop reads other elements of the list it updates")
    g = _at(x, k)

    def cf(m):
        return Seq(pre.n, lambda i: ite(cmp("<", i, m), g(i), pre.get(i)) if True else None, "fn")
    cf.pstore = True
    # length is preserved and must cover the range
    return cf


def keeps_length(u, p):
    if u is p:
        return True
    if u.kind == "store":
        return keeps_length(u.parts[0], p)
    if u.kind == "ite":
        return keeps_length(u.parts[1], p) and keeps_length(u.parts[2], p)
    return False


def has_nested(a, f):
    return any(consts_in(c, {f}) for c in a.children())


def only_at(eng, u, p, k, ns):
    """the update of placeholder p consists of stores at index k only"""
    if u is p:
        return True
    if u.kind == "store":
        j = u.parts[1]
        return is_z3(j) and valid([f for f in ns.pc if is_z3(f) and not eng._hasq(f)], j == k) and only_at(eng, u.parts[0], p, k, ns)
    if u.kind == "ite":
        return only_at(eng, u.parts[1], p, k, ns) and only_at(eng, u.parts[2], p, k, ns)
    return False


def rewrite_val(v, f, pre, k, ctxf):
    if isinstance(v, tuple):
        return tuple(rewrite_val(x, f, pre, k, ctxf) for x in v)
    if isinstance(v, Seq):
        if v.is_lit:
            return Seq.lit([rewrite_val(x, f, pre, k, ctxf) for x in v.items()])
        if v.vec is not None:
            return Seq(v.n, v.get, v.kind, v.parts, rewrite_fun(v.vec, f, pre, k, ctxf), v.ety) if not consts_in(v.vec, {f}) else Seq.ofvec(rewrite_fun(v.vec, f, pre, k, ctxf), v.n)
        return Seq(v.n, lambda i: rewrite_val(v.get(i), f, pre, k, ctxf))
    if is_z3(v) or is_scalar(v):
        return rewrite_fun(v, f, pre, k, ctxf)
    return v


def rewrite_fun(e, f, pre, k, ctxf):
    """replace f(t) by pre.get(t) in e, for the t that are surely not below k"""
    apps = []
    seen = set()
    stack = [toz(e)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().name() == f:
            apps.append(x)
        stack.extend(x.children())
    pairs = []
    for a in apps:
        if has_nested(a, f) or not valid(ctxf, a.arg(a.num_args() - 1) >= k):
            continue
        v = pre.get(a.arg(a.num_args() - 1))
        if a.sort() == Vec:
            if not isinstance(v, Seq) or v.vec is None:
                continue
            t = v.vec
        else:
            t = toz(v)
        if t.sort() != a.sort():
            t = toreal(v)
        pairs.append((a, t))
    return z3.substitute(toz(e), *pairs) if pairs else e


def solve_fmap(eng, ph, U, k, n, others, rp, st, base, ns):
    """field map updated at one symbolic object per iteration; requires distinct objects"""
    raise Unsupported("field map updated in symbolic loop")


# ------------------------------------------------------------------ invariants supplied by contracts
def houdini(eng, node, pending, closed, phs, k, n, sq, st, ns, b):
    """largest inductive subset of the candidate invariants the contracts offer for the unsolved locations.
    A candidate is a function (eng, value_of_location, m, sequence) -> [formulas] and is offered for every
    unsolved location (so it does not depend on variable names)."""
    vals = {}
    for p in pending:
        pv = p.val
        if p.kind == "list":
            vals[p.loc] = (lambda pv: lambda m: Seq(subst(pv.n, [(k, toz(m))]), _at2(pv, k, m), "fn"))(pv)
        else:
            vals[p.loc] = (lambda pv: lambda m: subst(pv, [(k, toz(m))]))(pv)
    for p in pending:
        closed[p.loc] = vals[p.loc]
    S = lambda v: subst_ph(v, [p for p in phs if p not in pending], closed, k)
    # the other locations may have become solvable only now - they are all in `closed` already
    cands = []
    for p in pending:
        U = read_loc(ns, p.loc)
        U = S(U) if not isinstance(U, Seq) else U
        for c in eng.inv_cands:
            try:
                f0 = c(eng, p.pre, 0, sq)
                fk = c(eng, p.val, k, sq)
                f1 = c(eng, U, k + 1, sq)
            except Unsupported:
                continue
            if f0 is None or fk is None or f1 is None:
                continue
            for j in range(len(fk)):
                x1 = f1[j]
                cands.append((p, c, j, f0[j], fk[j], S(x1) if is_z3(x1) else x1))
    hy0 = eng.hyps(st)
    cands = [c for c in cands if eng.prove(hy0, toz(c[3]))]
    body = [S(h) if is_z3(h) else h for h in eng.hyps(ns)]
    body += [toz(p.val.n) >= 0 for p in pending if p.kind == "list"]
    while True:
        keep = [c for c in cands if eng.prove(body + [toz(d[4]) for d in cands], toz(c[5]))]
        if len(keep) == len(cands):
            break
        cands = keep
    eng.inv_log.append((eng.current, getattr(node, "lineno", 0), len(cands)))
    if not cands:
        raise Unsupported("no invariant for %s" % ", ".join(str(p.loc[-1]) for p in pending))

    def at(m):
        out = []
        for p in pending:
            v = vals[p.loc](m)
            if p.kind == "list":
                out.append(toz(v.n) >= 0)
            cache = {}
            for q, c, j, _, _, _ in cands:
                if q is p:
                    if c not in cache:
                        cache[c] = c(eng, v, m, sq)
                    out.append(toz(cache[c][j]))
        return [o for o in out if not (is_z3(o) and z3.is_true(o))]
    return at


def _at2(pv, k, m):
    def get(i):
        h = z3.Int("hole!%d" % next(_HOLE))
        return subst(subst(pv.get(h), [(k, toz(m))]), [(h, toz(i))])
    return get
