"""Models of the built-ins and library functions evogil's code uses (all of them listed as trusted in the evidence)."""
import math, itertools
import ast
import z3
from fractions import Fraction
from .values import *
from . import loops, symmap

NAMES = """len range enumerate zip sum min max any all sorted reversed list tuple set dict float int str bool abs pow
map filter iter next isinstance print round type id super ValueError KeyError IndexError TypeError Exception
NotImplementedError ZeroDivisionError FloatingPointError AttributeError OverflowError StopIteration getattr setattr
hasattr object repr locals vars divmod frozenset property staticmethod RuntimeError AssertionError OSError""".split()


def install(eng):
    eng.builtin_names = set(NAMES)
    fi = Fraction(1, 2 ** 52)
    PI = z3.Real("PI")
    eng.PI = PI
    eng.ax.add(["PI"], z3.And(PI > z3.RealVal("3.14159265"), PI < z3.RealVal("3.14159266")))
    eng.consts = {
        "math.pi": PI, "numpy.pi": PI, "math.inf": INF, "numpy.inf": INF, "math.e": z3.Real("EULER"),
        "sys.float_info.epsilon": fi, "sys.float_info.max": Fraction(2) ** 1024 - Fraction(2) ** 971,
        "numpy.float64": Builtin("float"), "numpy.float": Builtin("float"),
        "sys.maxsize": 2 ** 63 - 1,
    }
    eng.call_builtin = lambda name, args, kwargs, st, node=None: call_builtin(eng, name, args, kwargs, st, node)


def call_builtin(eng, name, args, kwargs, st, node):
    f = TABLE.get(name)
    if "lib:" + name in eng.contracts:
        eng.used_contracts.add(name)
        return eng.contracts["lib:" + name](eng, st, args, kwargs, node)
    if f is None:
        root = name.split(".")[0]
        if root in ("logging", "logger", "warnings") or name in ("print",):
            return [(st, Opaque("log"))]
        if name.startswith("object."):
            return [(st, None)]
        if name.endswith(("Error", "Exception")):
            return [(st, Opaque("exception:" + name))]
        raise Unsupported("library function %s" % name)
    r = f(eng, st, args, kwargs, node)
    if isinstance(r, list):
        return r
    return [(st, r)]


TABLE = {}


def b(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def S1(eng, st, v, node=None):
    """single sequence view of an iterable"""
    r = loops.iter_seq(eng, v, st, node)
    if len(r) != 1:
        raise Unsupported("forking iterable")
    return r[0][1]


def unopt(eng, st, v, node):
    if isinstance(v, Opt):
        eng.safety(st, Not(v.isnone), "TypeError", node)
        return v.val
    return v


@b("len")
def _len(eng, st, a, kw, node):
    v = unopt(eng, st, a[0], node)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, ObjRef):
        f, _ = v.cls.lookup("__len__")
        if f:
            return eng.call(Bound(f, v), [], {}, st, node)
        raise Unsupported("len of object")
    sq = S1(eng, st, v, node)
    return loops.red_len(eng, st, sq)


@b("range")
def _range(eng, st, a, kw, node):
    a = [conc(num(x)) for x in a]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    if all(isinstance(x, int) for x in (lo, hi, step)):
        r = range(lo, hi, step)
        if len(r) <= 5000:
            return Seq.lit(list(r))
        return Seq(len(r), lambda i: add(lo, mul(step, i)), "range")
    if any(not is_int(x) for x in (lo, hi, step)):
        raise Unsupported("range of non-integers")
    if step == 1:
        n = sub(hi, lo)
        if not eng.entails_quick(st, cmp(">=", n, 0)):
            n = ite(cmp(">", n, 0), n, 0)
        if is_z3(n):
            n = conc(z3.simplify(n))
        return Seq(n, lambda i: add(lo, i), "range")
    if step == -1:
        n = sub(lo, hi)
        if not eng.entails_quick(st, cmp(">=", n, 0)):
            n = ite(cmp(">", n, 0), n, 0)
        return Seq(n, lambda i: sub(lo, i), "range")
    raise Unsupported("range step")


def seqs_min_len(eng, st, sqs):
    n = sqs[0].n
    for s in sqs[1:]:
        if isinstance(n, int) and isinstance(s.n, int):
            n = min(n, s.n)
        elif eng.entails_quick(st, cmp("<=", n, s.n)):
            pass
        elif eng.entails_quick(st, cmp("<=", s.n, n)):
            n = s.n
        else:
            n = ite(cmp("<=", n, s.n), n, s.n)
    return n


@b("enumerate")
def _enum(eng, st, a, kw, node):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    sq = S1(eng, st, a[0], node)
    if sq.is_lit:
        return Seq.lit([(add(start, k), x) for k, x in enumerate(sq.items())])
    if sq.kind == "flat":
        raise Unsupported("enumerate product")
    return Seq(sq.n, lambda i: (add(start, i), sq.get(i)), "fn")


@b("zip")
def _zip(eng, st, a, kw, node):
    sqs = [S1(eng, st, x, node) for x in a]
    if not sqs:
        return Seq.lit([])
    if any(s.kind == "flat" for s in sqs):
        raise Unsupported("zip product")
    if all(s.is_lit for s in sqs):
        return Seq.lit(list(zip(*[s.items() for s in sqs])))
    n = seqs_min_len(eng, st, sqs)
    if isinstance(n, int):
        return Seq.lit([tuple(s.get(k) for s in sqs) for k in range(n)])
    return Seq(n, lambda i: tuple(s.get(i) for s in sqs), "fn")


@b("sum", "numpy.sum", "math.fsum")
def _sum(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    return loops.red_sum(eng, st, sq, start)


def _minmax(mode):
    def f(eng, st, a, kw, node):
        key = kw.get("key")
        dflt = kw.get("default", "nodefault")
        if len(a) > 1:
            sq = Seq.lit(a)
        else:
            sq = S1(eng, st, a[0], node)
        if not isinstance(dflt, str) or dflt != "nodefault":
            ne = loops.nonempty(eng, st, sq)
            if ne is False:
                return dflt
            if ne is not True:
                out = []
                for s2, t in eng.fork(st, ne):
                    if not t:
                        out.append((s2, dflt))
                    else:
                        out += call_builtin(eng, mode, [sq], {k: v for k, v in kw.items() if k != "default"}, s2, node)
                return out
        if key is None:
            it = sq.items() if sq.is_lit else None
            if it is not None and any(isinstance(x, Opt) for x in it):
                raise Unsupported("min of optional")
            if it is not None and len(it) and any(isinstance(x, tuple) for x in it):
                return ext_fork(eng, st, it, list(it), mode, node)
            return loops.red_ext(eng, st, sq, mode, node)
        if sq.is_lit:
            it = sq.items()
            if not it:
                eng.safety_raise(st, "ValueError", node)
                return []
            states = [(st, [])]
            for x in it:
                states = [(s3, ks + [v]) for s2, ks in states for s3, v in eng.call(key, [x], {}, s2, node)]
            out = []
            for s2, ks in states:
                out += ext_fork(eng, s2, it, ks, mode, node)
            return out
        return loops.arg_ext(eng, st, sq, lambda s, x: eng.call(key, [x], {}, s, node), mode, node)
    return f


def ext_fork(eng, st, it, ks, mode, node):
    cur = [(st, 0)]
    for j in range(1, len(it)):
        new = []
        for s, w in cur:
            c = eng.order(s, ">" if mode == "max" else "<", ks[j], ks[w], node)
            for s2, t in eng.fork(s, c):
                new.append((s2, j if t else w))
        cur = new
    return [(s, it[w]) for s, w in cur]


TABLE["min"] = _minmax("min")
TABLE["max"] = _minmax("max")
TABLE["numpy.min"] = TABLE["numpy.amin"] = TABLE["min"]
TABLE["numpy.max"] = TABLE["numpy.amax"] = TABLE["max"]


@b("any")
def _any(eng, st, a, kw, node):
    return loops.red_any(eng, st, S1(eng, st, a[0], node))


@b("all")
def _all(eng, st, a, kw, node):
    return loops.red_any(eng, st, S1(eng, st, a[0], node), True)


def sort_lit(eng, st, items, keyfn, reverse, node):
    """stable sort of a literal list with symbolic keys: forks on comparisons"""
    states = [(st, [])]
    for x in items:
        new = []
        for s, ks in states:
            outs = keyfn(s, x) if keyfn else [(s, x)]
            new += [(s2, ks + [k]) for s2, k in outs]
        states = new
    out = []
    for s, ks in states:
        cur = [(s, [])]
        order = range(len(items))
        for j in order:
            new = []
            for s2, placed in cur:
                # insert j after the last element that is <= (stable)
                def ins(s3, pos):
                    if pos == 0:
                        new.append((s3, [j] + placed))
                        return
                    p = placed[pos - 1]
                    # stop when placed[pos-1] must stay before j
                    before = eng.order(s3, "<", ks[j], ks[p], node) if not reverse else eng.order(s3, ">", ks[j], ks[p], node)
                    for s4, t in eng.fork(s3, before):
                        if t:
                            ins(s4, pos - 1)
                        else:
                            new.append((s4, placed[:pos] + [j] + placed[pos:]))
                ins(s2, len(placed))
            cur = new
            if len(cur) > eng.path_limit:
                raise Unsupported("too many paths")
        out += [(s2, [items[q] for q in placed]) for s2, placed in cur]
    return out


@b("sorted")
def _sorted(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    key = kw.get("key")
    rev = bool(kw.get("reverse", False))
    kf = (lambda s, x: eng.call(key, [x], {}, s, node)) if key is not None else None
    if sq.is_lit:
        return [(s, eng.new_list(s, it)) for s, it in sort_lit(eng, st, list(sq.items()), kf, rev, node)]
    return eng.new_list(st, loops.sort_sym(eng, st, sq, kf, rev, node))


@b("list.sort")
def _lsort(eng, st, a, kw, node):
    r = _sorted(eng, st, a, kw, node)
    r = r if isinstance(r, list) else [(st, r)]
    out = []
    for s, v in r:
        s.heap[a[0].addr] = HeapList(s.heap[v.addr].seq)
        out.append((s, None))
    return out


@b("reversed")
def _rev(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if sq.is_lit:
        return Seq.lit(sq.items()[::-1])
    return Seq(sq.n, lambda i: sq.get(sub(sub(sq.n, 1), i)), "fn")


@b("list")
def _list(eng, st, a, kw, node):
    if not a:
        return eng.new_list(st, [])
    out = []
    for s, sq in loops.iter_seq(eng, a[0], st, node):
        out.append((s, eng.new_list(s, sq)))
    return out


@b("tuple")
def _tuple(eng, st, a, kw, node):
    if not a:
        return ()
    sq = S1(eng, st, a[0], node)
    return tuple(sq.items()) if sq.is_lit else sq


@b("set", "frozenset")
def _set(eng, st, a, kw, node):
    if not a:
        return eng.mk_set(st, [])
    sq = S1(eng, st, a[0], node)
    if not sq.is_lit:
        return SetRef(eng.alloc(st, symmap.set_from(eng, st, sq)))
    return eng.mk_set(st, sq.items())


@b("dict")
def _dict(eng, st, a, kw, node):
    d = DictRef(eng.alloc(st, HeapDict()))
    if a:
        if isinstance(a[0], DictRef):
            st.heap[d.addr] = _shallow(HeapDict(st.heap[a[0].addr].items, None, st.heap[a[0].addr].fmap))
        else:
            sq = S1(eng, st, a[0], node)
            if not sq.is_lit:
                if kw:
                    raise Unsupported("dict of symbolic sequence")
                st.heap[d.addr] = symmap.from_pairs(eng, st, sq)
                return d
            for x in sq.items():
                p = S1(eng, st, x)
                eng.dict_set(st, d, p.get(0), p.get(1))
    for k, v in kw.items():
        eng.dict_set(st, d, k, v)
    return d


@b("float")
def _float(eng, st, a, kw, node):
    if not a:
        return Fraction(0)
    v = unopt(eng, st, a[0], node)
    if isinstance(v, str):
        t = v.strip().lower()
        if t in ("inf", "+inf", "infinity", "+infinity"):
            return INF
        if t in ("-inf", "-infinity"):
            return NINF
        try:
            return Fraction(t)
        except ValueError:
            raise Unsupported("float of a text")
    v = num(v)
    if is_inf(v):
        return v
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return toreal(v)


@b("int", "math.trunc")
def _int(eng, st, a, kw, node):
    if not a:
        return 0
    v = unopt(eng, st, a[0], node)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            eng.safety_raise(st, "ValueError", node)
            return []
    if is_str(v):
        digits = z3.InRe(v, z3.Plus(z3.Range("0", "9")))
        if not eng.safety(st, digits, "ValueError", node):
            return []
        eng.fact(st, z3.StrToInt(v) >= 0)
        return z3.StrToInt(v)
    v = num(v)
    if isinstance(v, (int, Fraction)):
        return int(v)
    if is_int(v):
        return v
    if z3.is_app(v) and v.decl().name() == "SQRT" and z3.is_rational_value(v.arg(0)):
        fr = v.arg(0).as_fraction()
        return math.isqrt(fr.numerator // fr.denominator)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


@b("math.floor", "numpy.floor")
def _floor(eng, st, a, kw, node):
    v = num(a[0])
    if isinstance(v, (int, Fraction)):
        return math.floor(v)
    return v if is_int(v) else z3.ToInt(v)


@b("math.ceil", "numpy.ceil")
def _ceil(eng, st, a, kw, node):
    v = num(a[0])
    if isinstance(v, (int, Fraction)):
        return math.ceil(v)
    return v if is_int(v) else -z3.ToInt(-v)


@b("round")
def _round(eng, st, a, kw, node):
    if len(a) == 1 and isinstance(num(a[0]), (int, Fraction)):
        return round(num(a[0]))
    if len(a) == 1 and not kw and is_scalar(a[0]) and not is_inf(a[0]):
        v = num(a[0])
        if is_int(v):
            return v
        f = z3.ToInt(v + z3.RealVal("1/2"))
        return z3.If(z3.And(z3.ToReal(f) == v + z3.RealVal("1/2"), f % 2 != 0), f - 1, f)     # halves go to the even neighbour
    raise Unsupported("round")


@b("bool")
def _bool(eng, st, a, kw, node):
    if not a:
        return False
    return eng.truth(a[0], st)


@b("str", "repr")
def _str(eng, st, a, kw, node):
    if a and isinstance(a[0], str):
        return a[0]
    if a and isinstance(a[0], PathV):
        return a[0]
    if a and str_of(a[0]) is not None:
        return str_of(a[0])
    return Opaque("str")


@b("os.path.join")
def _ospjoin(eng, st, a, kw, node):
    return _path(eng, st, a, kw, node)


@b("fnmatch.filter")
def _fnfilter(eng, st, a, kw, node):
    """patterns made of literal text and *; names are arbitrary, forks on each"""
    sq = S1(eng, st, a[0], node)
    if not sq.is_lit or not is_str(a[1]):
        raise Unsupported("fnmatch.filter")
    pat = a[1]
    parts = [pat] if isinstance(pat, str) else [pat.arg(i) for i in range(pat.num_args())] if pat.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [pat]
    eng.trusted.add("names spliced into a file pattern contain no pattern characters")
    segs = [""]
    for x in [y for z in parts for y in flat_str(z)]:
        x = x.as_string() if z3.is_string_value(x) else x
        if isinstance(x, str):
            if any(c in x for c in "?[]"):
                raise Unsupported("fnmatch pattern")
            for i, piece in enumerate(x.split("*")):
                if i:
                    segs.append("")
                segs[-1] = scat(segs[-1], piece)
        else:
            segs[-1] = scat(segs[-1], x)

    def matches(t):
        if len(segs) == 1:
            return str_eq(t, segs[0])
        if len(segs) == 2 or (len(segs) == 3 and all(isinstance(x, str) and x == "" for x in (segs[0], segs[2]))):
            if len(segs) == 3:
                return z3.Contains(strz(t), strz(segs[1]))
            if isinstance(segs[0], str) and segs[0] == "":
                return z3.SuffixOf(strz(segs[1]), strz(t))
            if isinstance(segs[1], str) and segs[1] == "":
                return z3.PrefixOf(strz(segs[0]), strz(t))
        raise Unsupported("fnmatch pattern")
    states = [(st, [])]
    for x in sq.items():
        t = x
        if isinstance(x, PathV):
            t = x.parts[0]
            for y in x.parts[1:]:
                t = scat(scat(t, "/"), y)
        new = []
        for s, acc in states:
            for s2, c in eng.fork(s, matches(t)):
                new.append((s2, acc + [x] if c else acc))
        states = new
    return [(s, eng.new_list(s, acc)) for s, acc in states]


@b("abs", "math.fabs", "numpy.abs", "numpy.fabs", "numpy.math.fabs", "math.abs")
def _abs(eng, st, a, kw, node):
    v = num(unopt(eng, st, a[0], node))
    if is_inf(v):
        return INF
    if isinstance(v, (int, Fraction)):
        return abs(v)
    return z3.If(v >= 0, v, -v)


@b("pow", "math.pow", "numpy.power")
def _pow(eng, st, a, kw, node):
    return eng.power(st, num(unopt(eng, st, a[0], node)), num(unopt(eng, st, a[1], node)), node)


@b("math.sqrt", "numpy.sqrt", "numpy.math.sqrt", "cmath.sqrt")
def _sqrt(eng, st, a, kw, node):
    return eng.sqrt(st, a[0], node)


@b("numpy.square")
def _square(eng, st, a, kw, node):
    return mul(a[0], a[0])


def _trig(n):
    def f(eng, st, a, kw, node):
        v = num(a[0])
        if conc2(v, 0) and v == 0:
            return 0 if n == "sin" else 1
        x = z3.simplify(toreal(v), som=True)
        t = eng.UN[n](x)
        if n in ("sin", "cos"):
            eng.fact(st, z3.And(t <= 1, t >= -1))
            eng.trusted.add("%s: range [-1,1]" % n)
        else:
            eng.fact(st, t > 0)
            eng.fact(st, z3.Implies(x <= 0, t <= 1))
            eng.fact(st, z3.Implies(x >= 0, t >= 1))
            eng.fact(st, z3.Implies(x == 0, t == 1))
            eng.trusted.add("exp: positive, <=1 for arguments <=0, >=1 for arguments >=0")
        return t
    return f


for _n in ("sin", "cos", "exp"):
    for _m in ("math.", "numpy.", "numpy.math."):
        TABLE[_m + _n] = _trig(_n)


@b("math.log", "numpy.log")
def _log(eng, st, a, kw, node):
    if len(a) > 1:
        raise Unsupported("log base")
    v = num(a[0])
    eng.safety(st, cmp(">", v, 0), "ValueError", node)
    x = z3.simplify(toreal(v), som=True)
    return eng.UN["log"](x)


@b("map")
def _map(eng, st, a, kw, node):
    if len(a) > 2:
        sq = TABLE["zip"](eng, st, a[1:], {}, node)
        fn = lambda s, x: eng.call(a[0], list(x), {}, s, node)
    else:
        sq = S1(eng, st, a[1], node)
        fn = lambda s, x: eng.call(a[0], [x], {}, s, node)
    if not sq.is_lit:
        return loops.sym_map(eng, st, sq, fn, node)
    # python's map is lazy; treating it as eager is only right when it is consumed (see DESIGN)
    states = [(st, [])]
    for x in sq.items():
        states = [(s3, vs + [v]) for s2, vs in states for s3, v in fn(s2, x)]
    return [(s, Seq.lit(vs)) for s, vs in states]


@b("filter", "itertools.filterfalse")
def _filter(eng, st, a, kw, node):
    sq = S1(eng, st, a[1], node)
    fn = a[0]
    if sq.is_lit:
        states = [(st, [])]
        for x in sq.items():
            new = []
            for s, vs in states:
                for s2, v in eng.call(fn, [x], {}, s, node):
                    for s3, t in eng.fork(s2, eng.truth(v, s2)):
                        new.append((s3, vs + [x] if t else vs))
            states = new
        return [(s, Seq.lit(vs)) for s, vs in states]
    conds = loops.sym_map(eng, st, sq, lambda s, x: [(s2, eng.truth(v, s2)) for s2, v in eng.call(fn, [x], {}, s, node)], node)
    return loops.mk_filter(eng, st, sq.n, conds.get, sq.get)


@b("iter")
def _iter(eng, st, a, kw, node):
    return [(s, sq) for s, sq in loops.iter_seq(eng, a[0], st, node)]


@b("next")
def _next(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if len(a) > 1:
        c = cmp(">", sq.n, 0)
        out = []
        for s, t in eng.fork(st, c):
            out.append((s, sq.get(0) if t else a[1]))
        return out
    if not eng.safety(st, cmp(">", sq.n, 0), "StopIteration", node):
        return []
    return sq.get(0)


@b("isinstance")
def _isinst(eng, st, a, kw, node):
    v, c = a
    if isinstance(v, (ObjRef, SymObj)) and isinstance(c, ClassVal):
        return c in v.cls.mro()
    if isinstance(c, Builtin):
        n = c.name
        if n == "list":
            return isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef))
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "str":
            return isinstance(v, str)
        if n == "dict":
            return isinstance(v, DictRef)
        if n in ("int", "float"):
            return is_num(v) and (is_int(num(v)) == (n == "int"))
    raise Unsupported("isinstance")


@b("type")
def _type(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, (ObjRef, SymObj)):
        return v.cls
    if is_num(v) and not is_int(v):
        return Builtin("float")
    if isinstance(v, ListRef):
        return Builtin("list")
    raise Unsupported("type()")


@b("print")
def _print(eng, st, a, kw, node):
    return None


@b("id")
def _id(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, (ListRef, ObjRef)):
        return v.addr
    if isinstance(v, SymObj):
        return v.term
    raise Unsupported("id")


@b("getattr")
def _getattr(eng, st, a, kw, node):
    if isinstance(a[0], SpecObj) and "__getattr__" in a[0].attrs:
        return a[0].attrs["__getattr__"].app(eng, st, [a[1]])
    if not isinstance(a[1], str):
        raise Unsupported("getattr with dynamic name")
    if len(a) > 2:
        o = a[0]
        if isinstance(o, ObjRef) and a[1] not in st.heap[o.addr].fields and o.cls.lookup(a[1])[0] is None:
            return a[2]
    return eng.getattr(st, a[0], a[1], node)


@b("hasattr")
def _hasattr(eng, st, a, kw, node):
    o = a[0]
    if isinstance(o, ObjRef) and isinstance(a[1], str):
        return a[1] in st.heap[o.addr].fields or o.cls.lookup(a[1])[0] is not None
    raise Unsupported("hasattr")


@b("setattr")
def _setattr(eng, st, a, kw, node):
    return [(s, None) for s in eng.setattr(st, a[0], a[1], a[2], node)]


# ---------------------------------------------------------------- lists
def _mut(eng, st, l):
    if isinstance(l, ListRef):
        if st.heap[l.addr].frozen:
            raise Unsupported("in-place change of a list stored in a symbolic object")
        return st.heap[l.addr].seq
    raise Unsupported("mutation of a nested symbolic list")


def _shallow(h):
    m = symmap.smap(h)
    if m is not None and m.vk in ("list", "set"):
        raise Unsupported("shallow copy of a symbolic dictionary of lists")
    return h


@b("list.append")
def _append(eng, st, a, kw, node):
    if eng.on_append is not None:
        eng.on_append(st, a[0].addr, a[1])
    st.heap[a[0].addr] = HeapList(_mut(eng, st, a[0]).append(a[1]))
    return None


@b("list.extend")
def _extend(eng, st, a, kw, node):
    out = []
    for s, sq in loops.iter_seq(eng, a[1], st, node):
        s.heap[a[0].addr] = HeapList(_mut(eng, s, a[0]).concat(sq))
        out.append((s, None))
    return out


@b("list.insert")
def _insert(eng, st, a, kw, node):
    sq = _mut(eng, st, a[0])
    i = conc(a[1])
    if not sq.is_lit or not isinstance(i, int):
        raise Unsupported("insert")
    it = list(sq.items())
    it.insert(i, a[2])
    st.heap[a[0].addr] = HeapList(Seq.lit(it))
    return None


@b("list.pop")
def _pop(eng, st, a, kw, node):
    sq = _mut(eng, st, a[0])
    i = conc(a[1]) if len(a) > 1 else -1
    if sq.is_lit and isinstance(i, int):
        it = list(sq.items())
        if not (-len(it) <= i < len(it)):
            eng.safety_raise(st, "IndexError", node)
            return []
        v = it.pop(i)
        st.heap[a[0].addr] = HeapList(Seq.lit(it))
        return [(st, v)]
    if isinstance(i, int) and i == -1:
        if not eng.safety(st, cmp(">", sq.n, 0), "IndexError", node):
            return []
        v = sq.get(sub(sq.n, 1))
        if eng.on_remove is not None:
            eng.on_remove(st, a[0].addr, sub(sq.n, 1), v)
        st.heap[a[0].addr] = HeapList(sq.slice(0, sub(sq.n, 1)))
        return [(st, v)]
    if not eng.safety(st, And(cmp(">=", i, neg(sq.n)), cmp("<", i, sq.n)), "IndexError", node):
        return []
    i = ite(cmp("<", i, 0), add(i, sq.n), i)
    v = sq.get(i)
    return [(st2, v) for st2 in [_without(eng, st, a[0], sq, i, v)]]


def _without(eng, st, l, sq, r, v):
    """the list without the element at index r"""
    if eng.on_remove is not None:
        eng.on_remove(st, l.addr, r, v)
    st.heap[l.addr] = HeapList(Seq(sub(sq.n, 1), lambda j: sq.get(ite(cmp("<", j, r), j, add(j, 1)))))
    return st


def _find(eng, st, sq, x, node):
    """index of the first element equal to x in a symbolic sequence"""
    n = toz(sq.n)
    j = z3.Int("q!%d" % next(eng.counter))
    same = lambda i: toz(eng.eq(st, sq.get(i), x))
    if not eng.safety(st, z3.Exists([j], z3.And(0 <= j, j < n, same(j))), "ValueError", node):
        return None
    r = eng.fresh_int("at")
    st.assume(z3.And(0 <= r, r < n, same(r)))
    eng.fact(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r), z3.Not(same(j)))))
    return r


@b("list.remove")
def _remove(eng, st, a, kw, node):
    sq = _mut(eng, st, a[0])
    if not sq.is_lit:
        r = _find(eng, st, sq, a[1], node)
        return [] if r is None else [(_without(eng, st, a[0], sq, r, sq.get(r)), None)]
    out = []
    pend = st
    it = list(sq.items())
    for k, x in enumerate(it):
        c = eng.eq(pend, x, a[1])
        if c is False:
            continue
        s2 = pend if c is True else pend.copy().assume(c)
        if c is True or eng.feasible(s2):
            s2.heap[a[0].addr] = HeapList(Seq.lit(it[:k] + it[k + 1:]))
            out.append((s2, None))
        if c is True:
            pend = None
            break
        pend = pend.copy().assume(Not(c))
        if not eng.feasible(pend):
            pend = None
            break
    if pend is not None:
        eng.safety_raise(pend, "ValueError", node)
    return out


@b("list.index")
def _index(eng, st, a, kw, node):
    sq = eng.seq_of(a[0], st)
    if not sq.is_lit:
        r = _find(eng, st, sq, a[1], node)
        return [] if r is None else [(st, r)]
    out, pend = [], st
    for k, x in enumerate(sq.items()):
        c = eng.eq(pend, x, a[1])
        if c is False:
            continue
        s2 = pend if c is True else pend.copy().assume(c)
        if c is True or eng.feasible(s2):
            out.append((s2, k))
        if c is True:
            pend = None
            break
        pend = pend.copy().assume(Not(c))
        if not eng.feasible(pend):
            pend = None
            break
    if pend is not None:
        eng.safety_raise(pend, "ValueError", node)
    return out


@b("list.count")
def _count(eng, st, a, kw, node):
    sq = eng.seq_of(a[0], st)
    if sq.is_lit:
        r = 0
        for x in sq.items():
            r = add(r, ite(eng.eq(st, x, a[1]), 1, 0))
        return r
    k = eng.fresh_index("c")
    return eng.bigops.sum(ite(eng.eq(st, sq.get(k), a[1]), 1, 0), k)(sq.n)


@b("list.clear")
def _clear(eng, st, a, kw, node):
    _mut(eng, st, a[0])
    st.heap[a[0].addr] = HeapList(Seq.lit([]))
    return None


@b("list.reverse")
def _lrev(eng, st, a, kw, node):
    st.heap[a[0].addr] = HeapList(_rev(eng, st, [_mut(eng, st, a[0])], {}, node))
    return None


@b("list.copy", "copy.copy")
def _copy(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, DictRef):
        h = st.heap[v.addr]
        return DictRef(eng.alloc(st, _shallow(HeapDict(h.items, h.default, h.fmap))))
    if isinstance(v, SetRef):
        return SetRef(eng.alloc(st, st.heap[v.addr]))
    if isinstance(v, (ListRef, Seq)):
        return eng.new_list(st, eng.seq_of(v, st))
    if is_scalar(v) or isinstance(v, (str, tuple)) or v is None:
        return v
    if isinstance(v, ObjRef):
        h = st.heap[v.addr]
        return ObjRef(eng.alloc(st, HeapObj(h.cls, dict(h.fields))), v.cls)
    raise Unsupported("copy")


@b("copy.deepcopy")
def _deepcopy(eng, st, a, kw, node):
    memo = {}

    def go(v):
        if is_scalar(v) or isinstance(v, (str, PyFunc, Builtin, ClassVal, UFun, Opaque)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Opt):
            return Opt.mk(v.isnone, go(v.val))
        if isinstance(v, (ListRef, ObjRef)):
            if v in memo:
                return memo[v]
            if isinstance(v, DictRef):
                h = st.heap[v.addr]
                d = DictRef(eng.alloc(st, HeapDict()))
                memo[v] = d
                st.heap[d.addr] = HeapDict([(go(k), go(x)) for k, x in h.items], h.default, h.fmap)
                if symmap.smap(h) is not None:
                    raise Unsupported("deep copy of a symbolic dictionary")
                return d
            if isinstance(v, SetRef):
                d = SetRef(eng.alloc(st, st.heap[v.addr]))
                memo[v] = d
                return d
            if isinstance(v, ListRef):
                sq = st.heap[v.addr].seq
                l = eng.new_list(st, [])
                memo[v] = l
                st.heap[l.addr] = HeapList(Seq.lit([go(x) for x in sq.items()]) if sq.is_lit else sq)
                return l
            f, _ = v.cls.lookup("__deepcopy__")
            if f:
                raise Unsupported("__deepcopy__")
            h = st.heap[v.addr]
            o = ObjRef(eng.alloc(st, HeapObj(h.cls, {})), v.cls)
            memo[v] = o
            st.heap[o.addr] = HeapObj(h.cls, {k: go(x) for k, x in h.fields.items()})
            return o
        if isinstance(v, Seq):
            return v
        if isinstance(v, Partial):
            return Partial(v.func, [go(x) for x in v.args], {k: go(x) for k, x in v.kwargs.items()})
        raise Unsupported("deepcopy of %s" % type(v).__name__)
    return go(a[0])


# ---------------------------------------------------------------- dicts / sets
@b("dict.get")
def _dget(eng, st, a, kw, node):
    return eng.dict_get(st, a[0], a[1], node, a[2] if len(a) > 2 else None, True)


def _fmview(h, what, mk, eng=None, st=None, ref=None):
    m = symmap.smap(h)
    if m is not None:
        ks = eng.seq_of(ref, st)
        if ks.is_lit:
            return ks
        F = ks.parts[0]
        key = lambda i: symmap.key_val(m.kc, F(toz(i)))
        val = lambda i: eng.smap_val(ref, m, F(toz(i)))
        return Seq(ks.n, key if what == "keys" else val if what == "values" else (lambda i: (key(i), val(i))), "senum", ks.parts)
    if "n" not in h.fmap:
        raise Unsupported("%s of symbolic dict" % what)
    return Seq(h.fmap["n"], mk(h.fmap["key"]))


@b("dict.items")
def _items(eng, st, a, kw, node):
    h = st.heap[a[0].addr]
    if h.fmap is not None:
        return _fmview(h, "items", lambda K: lambda i: (K(i), h.fmap['get'](K(i))), eng, st, a[0])
    return Seq.lit([(k, v) for k, v in h.items])


@b("dict.keys")
def _keys(eng, st, a, kw, node):
    h = st.heap[a[0].addr]
    if h.fmap is not None:
        return _fmview(h, "keys", lambda K: lambda i: K(i), eng, st, a[0])
    return Seq.lit([k for k, v in h.items])


@b("dict.values")
def _values(eng, st, a, kw, node):
    h = st.heap[a[0].addr]
    if h.fmap is not None and "values" in h.fmap:
        return h.fmap["values"](st)
    if h.fmap is not None:
        return _fmview(h, "values", lambda K: lambda i: h.fmap['get'](K(i)), eng, st, a[0])
    return Seq.lit([v for k, v in h.items])


@b("dict.update")
def _dupdate(eng, st, a, kw, node):
    for x in a[1:]:
        if isinstance(x, DictRef):
            if st.heap[x.addr].fmap is not None:
                raise Unsupported("dict.update with a symbolic dictionary")
            for k, v in st.heap[x.addr].items:
                eng.dict_set(st, a[0], k, v)
        else:
            sq = S1(eng, st, x, node)
            if not sq.is_lit:
                raise Unsupported("dict.update")
            for p in sq.items():
                q = S1(eng, st, p)
                eng.dict_set(st, a[0], q.get(0), q.get(1))
    for k, v in kw.items():
        eng.dict_set(st, a[0], k, v)
    return None


@b("dict.pop")
def _dpop(eng, st, a, kw, node):
    d = a[0]
    h = st.heap[d.addr]
    if h.fmap is not None:
        raise Unsupported("pop from a symbolic dictionary")
    for k, v in h.items:
        if eng.same_key(st, k, a[1]) is True:
            st.heap[d.addr] = HeapDict([(x, y) for x, y in h.items if x is not k], h.default)
            return [(st, v)]
    if len(a) > 2:
        return a[2]
    raise Unsupported("dict.pop")


@b("dict.setdefault")
def _setdefault(eng, st, a, kw, node):
    d, k = a[0], a[1]
    dv = a[2] if len(a) > 2 else None
    h = st.heap[d.addr]
    if h.fmap is not None:
        raise Unsupported("setdefault on a symbolic dictionary")
    for kk, v in h.items:
        if eng.same_key(st, kk, k) is True:
            return [(st, v)]
    eng.dict_set(st, d, k, dv)
    return [(st, dv)]


@b("dict.clear")
def _dclear(eng, st, a, kw, node):
    h = st.heap[a[0].addr]
    if h.fmap is not None:
        raise Unsupported("clear of a symbolic dictionary")
    st.heap[a[0].addr] = HeapDict((), h.default)
    return None


@b("dict.copy")
def _dcopy(eng, st, a, kw, node):
    return _copy(eng, st, a, kw, node)


@b("collections.defaultdict")
def _defaultdict(eng, st, a, kw, node):
    return DictRef(eng.alloc(st, HeapDict((), a[0] if a else None)))


@b("collections.OrderedDict")
def _odict(eng, st, a, kw, node):
    return _dict(eng, st, a, kw, node)


@b("set.add")
def _sadd(eng, st, a, kw, node):
    h = st.heap[a[0].addr]
    if h.mem is not None or (isinstance(a[1], SymObj) and h.items and any(eng.same_key(st, a[1], w) not in (True, False) for w in h.items)):
        v = symmap.set_of(h)
        c, t = symmap.elem_key(a[1])
        if c is None or (v.cls is not None and getattr(c, "name", c) != getattr(v.cls, "name", v.cls)):
            raise Unsupported("set of mixed members")
        st.heap[a[0].addr] = HeapSet(mem=lambda x: Or(x == t, v.mem(x)), cls=v.cls or c)
        return None
    for w in h.items:
        c = eng.same_key(st, a[1], w)
        if c is True or (c is not False and eng.entails_quick(st, c)):
            return None
        if c is not False and not eng.entails_quick(st, Not(c)):
            raise Unsupported("set.add with undetermined equality")
    st.heap[a[0].addr] = HeapSet(h.items + (a[1],))
    return None


@b("set.update")
def _supdate(eng, st, a, kw, node):
    for x in S1(eng, st, a[1]).items():
        _sadd(eng, st, [a[0], x], {}, node)
    return None


# ---------------------------------------------------------------- strings
def _strm(name):
    def f(eng, st, a, kw, node):
        if is_z3(a[0]) and name == "lower":
            return LOWER(a[0])
        if is_z3(a[0]) and name == "split" and len(a) == 2 and is_str(a[1]):
            x, sep = a[0], strz(a[1])
            n = SPLITN(x, sep)
            eng.fact(st, n >= 1)
            return eng.new_list(st, Seq(n, lambda k: SPLITAT(x, sep, toz(k))))
        if name == "join" and isinstance(a[1], (ListRef, Seq)) and is_str(a[0]):
            sq = S1(eng, st, a[1])
            if sq.is_lit and all(is_str(x) for x in sq.items()):
                r = ""
                for k, x in enumerate(sq.items()):
                    r = scat(scat(r, a[0]) if k else r, x)
                return r
        if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in kw.values()):
            r = getattr(a[0], name)(*a[1:], **kw)
            return eng.new_list(st, r) if isinstance(r, list) else r
        if name == "join" and isinstance(a[1], (ListRef, Seq)):
            sq = S1(eng, st, a[1])
            if sq.is_lit and all(isinstance(x, str) for x in sq.items()):
                return a[0].join(sq.items())
        if name == "format" and isinstance(a[0], str):
            import string
            acc, auto = "", 0
            for text, fld, spec, conv in string.Formatter().parse(a[0]):
                acc = scat(acc, text)
                if fld is None:
                    continue
                if fld == "":
                    fld, auto = str(auto), auto + 1
                v = a[1 + int(fld)] if fld.isdigit() and int(fld) + 1 < len(a) else kw.get(fld)
                piece = str_of(v, spec or None) if v is not None and not conv else None
                if piece is None:
                    return Opaque("str")
                acc = scat(acc, piece)
            return acc
        if name in ("format", "join"):
            return Opaque("str")
        raise Unsupported("str." + name)
    return f


for _n in "lower upper split strip startswith endswith format join replace lstrip rstrip title capitalize".split():
    TABLE["str." + _n] = _strm(_n)


# ---------------------------------------------------------------- regular expressions
@b("re.fullmatch")
def _fullmatch(eng, st, a, kw, node):
    from . import regex
    if not isinstance(a[0], str) or not is_str(a[1]) or len(a) > 2 or kw:
        raise Unsupported("re.fullmatch")
    if isinstance(a[1], str):
        import re
        m = re.fullmatch(a[0], a[1])
        if m is None:
            return None
        gd = m.groupdict()
        return _match(eng, st, gd)
    c, groups = regex.fullmatch(eng, st, a[0], a[1])
    return Opt.mk(Not(c), _match(eng, st, groups))


def _match(eng, st, gd):
    def grp(e, s, args):
        if len(args) == 1 and args[0] in gd:
            return [(s, gd[args[0]])]
        raise Unsupported("match group")
    return SpecObj({"groupdict": UFun(lambda e, s, args: [(s, DictRef(e.alloc(s, HeapDict(tuple(gd.items())))))]), "group": UFun(grp), "__getitem__": UFun(grp)}, "match")


# ---------------------------------------------------------------- paths
@b("pathlib.Path", "pathlib.PurePath")
def _path(eng, st, a, kw, node):
    eng.trusted.add("pathlib: a path is the sequence of its names, each a non-empty name without separators")
    parts = ()
    for x in a:
        if isinstance(x, PathV):
            parts += x.parts
        elif is_str(x):
            parts += (x,)
        else:
            raise Unsupported("path of %s" % type(x).__name__)
    return PathV(parts)


@b("path.with_suffix")
def _with_suffix(eng, st, a, kw, node):
    if a[1] != "":
        raise Unsupported("with_suffix")
    return PathV(a[0].parts[:-1] + (stem(a[0].parts[-1]),))


@b("path.joinpath")
def _joinpath(eng, st, a, kw, node):
    return _path(eng, st, a, kw, node)


# ---------------------------------------------------------------- random
def rnd_fact(eng, st, f):
    eng.fact(st, f)


@b("random.random")
def _random(eng, st, a, kw, node):
    r = eng.fresh_real("rnd")
    eng.fact(st, z3.And(r >= 0, r < 1))
    return r


@b("random.uniform")
def _uniform(eng, st, a, kw, node):
    x, y = toreal(a[0]), toreal(a[1])
    r = eng.fresh_real("uni")
    eng.fact(st, z3.And(r >= z3.If(x <= y, x, y), r <= z3.If(x <= y, y, x)))
    return r


@b("random.triangular")
def _tri(eng, st, a, kw, node):
    lo = a[0] if a else kw.get("low", 0)
    hi = a[1] if len(a) > 1 else kw.get("high", 1)
    if len(a) > 2 or "mode" in kw:
        raise Unsupported("triangular mode")
    x, y = toreal(lo), toreal(hi)
    r = eng.fresh_real("tri")
    eng.fact(st, z3.And(r >= z3.If(x <= y, x, y), r <= z3.If(x <= y, y, x)))
    return r


@b("random.gauss", "random.normalvariate", "random.lognormvariate")
def _gauss(eng, st, a, kw, node):
    return eng.fresh_real("gauss")


@b("random.betavariate")
def _beta(eng, st, a, kw, node):
    eng.safety(st, And(cmp(">", a[0], 0), cmp(">", a[1], 0)), "ValueError", node)
    r = eng.fresh_real("beta")
    eng.fact(st, z3.And(r >= 0, r <= 1))
    return r


@b("random.randint")
def _randint(eng, st, a, kw, node):
    if not eng.safety(st, cmp("<=", a[0], a[1]), "ValueError", node):
        return []
    r = eng.fresh_int("rint")
    eng.fact(st, Implies(cmp("<=", a[0], a[1]), z3.And(r >= toz(num(a[0])), r <= toz(num(a[1])))))
    if conc2(a[0], a[1]) and a[0] == a[1]:
        return a[0]
    return r


@b("random.randrange")
def _randrange(eng, st, a, kw, node):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if not eng.safety(st, cmp("<", lo, hi), "ValueError", node):
        return []
    r = eng.fresh_int("rint")
    eng.fact(st, Implies(cmp("<", lo, hi), z3.And(r >= toz(lo), r < toz(hi))))
    return r


@b("random.choice")
def _choice(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if not eng.safety(st, cmp(">", sq.n, 0), "IndexError", node):
        return []
    if sq.is_lit and sq.n == 1:
        return sq.items()[0]
    r = eng.fresh_int("pick")
    eng.fact(st, Implies(cmp(">", sq.n, 0), z3.And(r >= 0, r < toz(sq.n))))
    if sq.is_lit:
        try:
            return [(st, sq.get(r))]
        except Unsupported:
            out = []
            for k, x in enumerate(sq.items()):
                s2 = st.copy().assume(r == k)
                out.append((s2, x))
            return out
    return sq.get(r)


@b("random.sample")
def _sample(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    k = a[1] if len(a) > 1 else kw["k"]
    if not eng.safety(st, And(cmp(">=", k, 0), cmp("<=", k, sq.n)), "ValueError", node):
        return []
    k = conc(k)
    g = And(cmp(">=", k, 0), cmp("<=", k, sq.n))
    if isinstance(k, int) and k <= 4:
        idx = [eng.fresh_int("smp") for _ in range(k)]
        for i in idx:
            eng.fact(st, Implies(g, z3.And(i >= 0, i < toz(sq.n))))
        for p, q in itertools.combinations(idx, 2):
            eng.fact(st, Implies(g, p != q))
        if sq.is_lit:
            try:
                return [(st, eng.new_list(st, [sq.get(i) for i in idx]))]
            except Unsupported:
                out = []
                for perm in itertools.permutations(range(sq.n), k):
                    s2 = st.copy()
                    for i, p in zip(idx, perm):
                        s2.assume(i == p)
                    out.append((s2, eng.new_list(s2, [sq.items()[p] for p in perm])))
                return out
        return eng.new_list(st, [sq.get(i) for i in idx])
    F, R = eng.fresh_fun("smp", 1), eng.fresh_fun("smpr", 1)
    i = z3.Int("i!%d" % next(eng.counter))
    eng.fact(st, z3.ForAll([i], z3.Implies(And(g, z3.And(0 <= i, i < toz(k))), z3.And(0 <= F(i), F(i) < toz(sq.n), R(F(i)) == i)), patterns=[F(i)]))
    return eng.new_list(st, Seq(k, lambda x: sq.get(F(toz(x))), "fn"))


@b("random.choices")
def _choices(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    k = kw.get("k", 1)
    eng.safety(st, cmp(">", sq.n, 0), "IndexError", node)
    F = eng.fresh_fun("chs", 1)
    i = z3.Int("i!%d" % next(eng.counter))
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(toz(cmp(">", sq.n, 0))), z3.And(0 <= F(i), F(i) < toz(sq.n))), patterns=[F(i)]))
    return eng.new_list(st, Seq(k, lambda x: sq.get(F(toz(x))), "fn"))


@b("random.shuffle")
def _shuffle(eng, st, a, kw, node):
    sq = _mut(eng, st, a[0])
    if sq.is_lit:
        n = sq.n
        if n <= 1:
            return None
        idx = [eng.fresh_int("shf") for _ in range(n)]
        eng.fact(st, z3.And(z3.Distinct(*idx), *[z3.And(i >= 0, i < n) for i in idx]))
        try:
            st.heap[a[0].addr] = HeapList(Seq.lit([sq.get(i) for i in idx]))
            return None
        except Unsupported:
            out = []
            for perm in itertools.permutations(range(n)):
                s2 = st.copy()
                s2.assume(And(*[i == p for i, p in zip(idx, perm)]))
                s2.heap[a[0].addr] = HeapList(Seq.lit([sq.items()[p] for p in perm]))
                out.append((s2, None))
            return out
    n = toz(sq.n)
    P, Q = eng.fresh_fun("shf", 1), eng.fresh_fun("shfi", 1)
    i = z3.Int("i!%d" % next(eng.counter))
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P(i), P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q(i), Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))
    st.heap[a[0].addr] = HeapList(Seq(sq.n, lambda x: sq.get(P(toz(x))), "perm", (sq, P, Q)))
    return None


@b("random.seed")
def _seed(eng, st, a, kw, node):
    return None


# ---------------------------------------------------------------- itertools / functools / operator
@b("itertools.permutations")
def _perm(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if not sq.is_lit:
        raise Unsupported("permutations of symbolic sequence")
    return Seq.lit(list(itertools.permutations(sq.items(), *[conc(x) for x in a[1:]])))


@b("itertools.combinations")
def _comb(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if not sq.is_lit:
        raise Unsupported("combinations of symbolic sequence")
    return Seq.lit(list(itertools.combinations(sq.items(), conc(a[1]))))


@b("itertools.product")
def _product(eng, st, a, kw, node):
    sqs = [S1(eng, st, x, node) for x in a]
    rep = kw.get("repeat", 1)
    sqs = [Seq.lit([x.get(i) for i in range(x.n)]) if isinstance(x.n, int) and not x.is_lit and x.n <= 64 else x for x in sqs]
    if all(s.is_lit for s in sqs):
        return Seq.lit(list(itertools.product(*[s.items() for s in sqs], repeat=rep)))
    if len(sqs) == 2 and rep == 1:
        A, B = sqs
        return loops.Seq_flat(eng, A.n, None, lambda i: Seq(B.n, lambda j: (A.get(i), B.get(j))))
    raise Unsupported("product of symbolic sequences")


@b("itertools.chain")
def _chain(eng, st, a, kw, node):
    r = Seq.lit([])
    for x in a:
        r = r.concat(S1(eng, st, x, node))
    return r


@b("itertools.chain.from_iterable")
def _chainfi(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if sq.is_lit:
        r = Seq.lit([])
        for x in sq.items():
            r = r.concat(S1(eng, st, x, node))
        return r
    return loops.Seq_flat(eng, sq.n, None, lambda i: eng.seq_of(sq.get(i), st))


@b("functools.partial")
def _partial(eng, st, a, kw, node):
    return Partial(a[0], list(a[1:]), dict(kw))


@b("functools.reduce")
def _reduce(eng, st, a, kw, node):
    sq = S1(eng, st, a[1], node)
    if not sq.is_lit:
        raise Unsupported("reduce over symbolic sequence")
    it = list(sq.items())
    if len(a) > 2:
        states = [(st, a[2])]
    else:
        if not it:
            eng.safety_raise(st, "TypeError", node)
            return []
        states = [(st, it.pop(0))]
    for x in it:
        states = [r for s, v in states for r in eng.call(a[0], [v, x], {}, s, node)]
    return states


@b("operator.itemgetter")
def _ig(eng, st, a, kw, node):
    ks = list(a)
    return UFun(lambda e, s, args: e.getitem(s, args[0], ks[0], node) if len(ks) == 1 else (_ for _ in ()).throw(Unsupported("itemgetter")), "itemgetter")


@b("operator.attrgetter")
def _ag(eng, st, a, kw, node):
    nm = a[0]
    return UFun(lambda e, s, args: e.getattr(s, args[0], nm, node), "attrgetter")


@b("operator.mul")
def _omul(eng, st, a, kw, node):
    return eng.binop(st, ast.Mult(), a[0], a[1], node)


@b("operator.add")
def _oadd(eng, st, a, kw, node):
    return eng.binop(st, ast.Add(), a[0], a[1], node)


# ---------------------------------------------------------------- numpy
@b("numpy.mean", "statistics.mean", "numpy.average")
def _mean(eng, st, a, kw, node):
    if kw.get("axis") is not None:
        if kw["axis"] != 0:
            raise Unsupported("mean axis")
        return _avg0(eng, st, a[0], node)
    sq = S1(eng, st, a[0], node)
    if kw:
        raise Unsupported("mean options")
    if not eng.safety(st, cmp(">", sq.n, 0), "MeanOfEmpty", node):
        return []
    return truediv(loops.red_sum(eng, st, sq), sq.n)


def _avg0(eng, st, v, node):
    from .engine import NpArr
    sq = S1(eng, st, v, node)
    if not eng.safety(st, cmp(">", sq.n, 0), "MeanOfEmpty", node):
        return []
    first = eng.seq_of(sq.get(0), st)
    d = first.n

    def col(i):
        if sq.is_lit:
            r = 0
            for row in sq.items():
                r = add(r, eng.seq_of(row, st).get(i))
            return truediv(r, sq.n)
        k = eng.fresh_index("row")
        return truediv(eng.bigops.sum(num(eng.seq_of(sq.get(k), st).get(i)), k)(sq.n), sq.n)
    if isinstance(d, int):
        return NpArr(Seq.lit([col(i) for i in range(d)]))
    return NpArr(Seq(d, col))


@b("numpy.std")
def _std(eng, st, a, kw, node):
    sq = S1(eng, st, a[0], node)
    if kw:
        raise Unsupported("std options")
    if not eng.safety(st, cmp(">", sq.n, 0), "MeanOfEmpty", node):
        return []
    m = truediv(loops.red_sum(eng, st, sq), sq.n)
    dv = Seq(sq.n, lambda i: mul(sub(sq.get(i), m), sub(sq.get(i), m))) if not sq.is_lit else Seq.lit([mul(sub(x, m), sub(x, m)) for x in sq.items()])
    return eng.sqrt(st, truediv(loops.red_sum(eng, st, dv), sq.n), node)


@b("numpy.array", "numpy.asarray")
def _nparray(eng, st, a, kw, node):
    from .engine import NpArr
    v = a[0]
    if isinstance(v, NpArr):
        return v
    return NpArr(S1(eng, st, v, node))


@b("numpy.dot")
def _dot(eng, st, a, kw, node):
    x, y = S1(eng, st, a[0], node), S1(eng, st, a[1], node)
    eng.safety(st, cmp("==", x.n, y.n), "ValueError", node)
    sq = Seq.lit([mul(p, q) for p, q in zip(x.items(), y.items())]) if x.is_lit and y.is_lit else Seq(x.n, lambda i: mul(x.get(i), y.get(i)))
    return loops.red_sum(eng, st, sq)


@b("numpy.linalg.norm")
def _norm(eng, st, a, kw, node):
    x = S1(eng, st, a[0], node)
    sq = Seq.lit([mul(p, p) for p in x.items()]) if x.is_lit else Seq(x.n, lambda i: mul(x.get(i), x.get(i)))
    return eng.sqrt(st, loops.red_sum(eng, st, sq), node)


@b("numpy.finfo")
def _finfo(eng, st, a, kw, node):
    o = ObjRef(eng.alloc(st, HeapObj(ClassVal("finfo", None, [], {}), {"eps": Fraction(1, 2 ** 52)})), None)
    o.cls = st.heap[o.addr].cls
    return o


@b("numpy.arange")
def _arange(eng, st, a, kw, node):
    from .engine import NpArr
    v = [conc(num(x)) for x in a]
    if all(isinstance(x, (int, Fraction)) for x in v):
        lo, hi, step = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
        n = max(0, math.ceil(Fraction(hi - lo) / Fraction(step)))
        return NpArr(Seq.lit([lo + k * step for k in range(n)]))
    raise Unsupported("arange")


@b("numpy.zeros")
def _zeros(eng, st, a, kw, node):
    from .engine import NpArr
    n = conc(a[0])
    if isinstance(n, int):
        return NpArr(Seq.lit([Fraction(0)] * n))
    return NpArr(Seq(n, lambda i: Fraction(0)))


@b("np.tolist")
def _tolist(eng, st, a, kw, node):
    return eng.new_list(st, a[0].seq)


@b("np.sum")
def _npsum(eng, st, a, kw, node):
    return loops.red_sum(eng, st, a[0].seq)


@b("time.time", "time.perf_counter", "time.process_time")
def _time(eng, st, a, kw, node):
    r = eng.fresh_real("time")
    return r


@b("uuid.uuid4")
def _uuid(eng, st, a, kw, node):
    return Opaque("uuid")
