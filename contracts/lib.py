"""shared specification vocabulary for the contracts"""
import z3
from pydv.spec import *
from pydv.values import *
from pydv.engine import NpArr

DOM = z3.Function("DOM", Vec, Vec, z3.BoolSort())


def fa(vs, body):
    return z3.ForAll(vs, body)


def dom_def(a, b, n):
    """textbook dominance of element functions a, b over n objectives"""
    return z3.And(toz(forall(n, lambda k: a(k) <= b(k))), toz(exists(n, lambda k: a(k) < b(k))))


def cmp_cands(eng, v, m, sq):
    """candidate invariants of a loop that walks two vectors side by side: what a flag says about the pairs seen so far"""
    if isinstance(v, Opt) or not (is_num(v) or is_bool(v)):
        return None
    m = toz(m)
    probe = sq.get(0) if not sq.is_lit or sq.n else None
    if not (isinstance(probe, tuple) and len(probe) == 2):
        return None
    c = next(eng.counter)
    j = z3.Int("cj%d" % c)

    def g(i):
        a, b = sq.get(i)
        return toz(num(a)), toz(num(b))
    A = lambda op: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), op(*g(j))))
    E = lambda op: z3.Exists([j], z3.And(0 <= j, j < m, op(*g(j))))
    le, ge = A(lambda x, y: x <= y), A(lambda x, y: x >= y)
    lt, gt = E(lambda x, y: x < y), E(lambda x, y: x > y)
    if is_bool(v):
        v = toz(v)
        return [z3.Implies(v, lt), z3.Implies(v, gt), z3.Implies(z3.Not(v), ge), z3.Implies(z3.Not(v), le), z3.Implies(v, le), z3.Implies(v, ge), le, ge]
    v = toz(num(v))
    return [z3.Or(v == 0, v == 1, v == -1), z3.Implies(v == 1, z3.And(le, lt)), z3.Implies(v == -1, z3.And(ge, gt)), z3.Implies(v == 0, z3.And(le, ge)),
            z3.Implies(v > 0, lt), z3.Implies(v == 0, ge), z3.Implies(v == 0, le), le, v >= 0]


def SEQV(s):
    """vector term behind a sequence value"""
    if isinstance(s, Seq):
        if s.vec is not None:
            return s.vec
        if s.kind == "ite":
            c, a, b = s.parts
            return z3.If(toz(c), SEQV(a), SEQV(b))
    raise Unsupported("not an opaque vector: %r" % (s,))


def dom_axioms(eng):
    """strict partial order (proved from the definition by the C01 lemmas)"""
    x, y, z = z3.Consts("x y z", Vec)
    eng.ax.add(["DOM"], z3.ForAll([x, y, z], z3.Implies(z3.And(DOM(x, y), DOM(y, z)), DOM(x, z))))
    eng.ax.add(["DOM"], z3.ForAll([x], z3.Not(DOM(x, x))))


def dom_contract(eng, st, args, kw, node):
    """contract of evotools.ea_utils.dominates (proved under C01): the answer is DOM(xs, ys)"""
    a, b = eng.seq_of(args[0], st), eng.seq_of(args[1], st)
    return [(st, DOM(SEQV(a), SEQV(b)))]


def use_dom(P):
    dom_axioms(P.eng)
    P.eng.contracts["evotools.ea_utils:dominates"] = dom_contract


# ------------------------------------------------------------------ indexed sums and extrema in specifications
def SUM(P, n, f):
    """f(0) + ... + f(n-1)"""
    if isinstance(n, int):
        r = 0
        for k in range(n):
            r = add(r, f(k))
        return toz(num(r))
    k = P.eng.fresh_index("s")
    return toz(P.eng.bigops.sum(num(f(k)), k)(n))


def unfold(P, st, n, f):
    """definition of an indexed sum, unfolded at n: f(0)+...+f(n) = (f(0)+...+f(n-1)) + f(n)"""
    st.assume(z3.Implies(toz(n) >= 0, SUM(P, n + 1, f) == SUM(P, n, f) + toz(num(f(n)))))


def EXT(P, mode, n, f):
    k = P.eng.fresh_index("s")
    return toz(P.eng.bigops.ext(num(f(k)), k, mode)(n))


def MIN(P, n, f):
    return EXT(P, "min", n, f)


def MAX(P, n, f):
    return EXT(P, "max", n, f)


def SQRT(P, st, x):
    return toz(num(P.eng.sqrt(st, x)))


def absr(x):
    return z3.If(x >= 0, x, -x)


def R(v):
    """numeric term of a scalar result"""
    return toreal(num(v))


def fld(P, v, attr, st):
    """attribute of a symbolic or concrete object in a state"""
    return P.eng.getattr(st, v, attr)[0][1] if isinstance(P.eng.getattr(st, v, attr), list) else P.eng.getattr(st, v, attr)


class Tok(Opaque):
    """an opaque value identified by an integer term"""

    def __init__(self, t):
        super().__init__("token")
        self.t = t


def dget(P, st, d, key):
    """value stored under a key of a dictionary"""
    return P.eng.dict_get(st, d, key, None)[0][1]


def UF(h):
    """a function argument given by its contract handler"""
    return UFun(lambda e, s, args: h(e, s, args, {}, None), "spec")


class Ghost:
    """ghost state of a contract: named values carried by the states of the run"""

    def __init__(self, P, **fields):
        self.P = P
        self.ref = ObjRef(P.eng.alloc(P.st, HeapObj(ClassVal("Ghost", None, [], {}, None), dict(fields))), None)

    def get(self, st, name):
        return st.heap[self.ref.addr].fields[name]

    def set(self, st, name, v):
        h = st.heap[self.ref.addr]
        f = dict(h.fields)
        f[name] = v
        st.heap[self.ref.addr] = HeapObj(h.cls, f)


def METHOD(fn):
    """method of a spec object: fn(st, args) -> value"""
    return UFun(lambda e, s, args: [(s, fn(s, args))], "spec method")


def mention(P, s, *terms, depth=1):
    """name the places of the given elements in permutations and filters made so far (definitions of fresh constants)"""
    fs, seen = {}, set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.domain(0) == z3.IntSort() and d.range() == z3.IntSort() and d.name().split("!")[0] in ("pinv", "rnk", "smpr", "shfi", "srank", "last"):
                fs[d.name()] = d
            for c in e.children():
                walk(c)
    for f in s.facts:
        if is_z3(f):
            walk(f)
    cur = list(terms)
    for _ in range(depth):
        new = []
        for t in cur:
            for d in fs.values():
                c = P.eng.fresh_int("place")
                s.assume(c == d(t))
                new.append(d(t))
        cur = new


def hint(P, s, f, timeout=3000):
    """an intermediate fact that helps when it holds, and is left out when it does not"""
    try:
        if P.eng.prove(P.eng.hyps(s), f, timeout * (5 if P.final else 1)):
            s.assume(f)
            return True
    except Unsupported:
        pass
    return False


def index_functions(s, prefixes):
    """functions made for the positions of chosen elements so far, by kind"""
    fs, seen = {}, set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.domain(0) == z3.IntSort() and d.range() == z3.IntSort() and d.name().split("!")[0] in prefixes:
                fs[d.name()] = d
            for c in e.children():
                walk(c)
    for f in s.facts:
        if is_z3(f):
            walk(f)
    return list(fs.values())


def chosen(P, s, sq, n, listed, same, what):
    """sq is the sequence of the k < n with listed(k), in order, each once: same(value, k) says that a value is that of k"""
    fl, rk = index_functions(s, ("flt",)), index_functions(s, ("rnk",))
    m = toz(sq.n)
    i, j = bvar(), bvar()
    for Fn in reversed(fl):
        for Rn in reversed(rk):
            goals = [("%s: only those" % what, forall(m, lambda i: z3.And(Fn(i) >= 0, Fn(i) < toz(n), toz(listed(Fn(i))), toz(same(sq.get(i), Fn(i)))))),
                     ("%s: in order, each once" % what, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), Fn(i) < Fn(j)))),
                     ("%s: all of them" % what, forall(n, lambda k: Implies(listed(k), z3.And(Rn(k) >= 0, Rn(k) < m, Fn(Rn(k)) == k))))]
            if len(fl) * len(rk) == 1 or all(P.eng.prove(P.eng.hyps(s), toz(f), 3000) for _, f in goals):
                for nm, f in goals:
                    P.ensure(s, nm, f)
                return
    raise Unsupported("choice of another form")
