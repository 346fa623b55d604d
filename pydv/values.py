"""Value domain of the symbolic interpreter.

Scalars are Python ints / Fractions / bools / strings / None when concrete and z3 Int/Real/Bool terms when
symbolic.  Machine floats are read as mathematical reals (recorded as an assumption in every evidence file);
the two infinities are kept as Python floats and only ever compared.
"""
import z3
from fractions import Fraction

Vec = z3.DeclareSort("Vec")
VLEN = z3.Function("vlen", Vec, z3.IntSort())
VGET = z3.Function("vget", Vec, z3.IntSort(), z3.RealSort())
Ref = z3.IntSort()

INF = float("inf")
NINF = float("-inf")


class Unsupported(Exception):
    pass


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_inf(v):
    return isinstance(v, float) and v in (INF, NINF)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_scalar(v):
    return is_num(v) or is_bool(v) or is_inf(v)


def num(v):
    """coerce bools to numbers"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, float):
        if v in (INF, NINF):
            return v
        return Fraction(repr(v))
    return v


def is_int(v):
    return (isinstance(v, int)) or (isinstance(v, z3.ArithRef) and v.is_int())


def toz(v):
    """to a z3 term"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if is_z3(v):
        return v
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported("not a scalar: %r" % (v,))


def toreal(v):
    v = num(v)
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(v))
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    raise Unsupported("not a number: %r" % (v,))


def conc(t):
    """turn a z3 numeral back into a Python number"""
    if isinstance(t, z3.ExprRef):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def pair(a, b):
    a, b = num(a), num(b)
    if is_int(a) and is_int(b):
        return toz(a), toz(b)
    return toreal(a), toreal(b)


def conc2(a, b):
    return isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction))


def add(a, b):
    a, b = num(a), num(b)
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b) and a != b:
            raise Unsupported("inf-inf")
        return a if is_inf(a) else b
    if conc2(a, b):
        return norm(a + b)
    if conc2(a, 0) and a == 0 and (isinstance(a, int)):
        return b
    if conc2(b, 0) and b == 0 and (isinstance(b, int)):
        return a
    x, y = pair(a, b)
    return x + y


def norm(x):
    return x


def sub(a, b):
    a, b = num(a), num(b)
    if is_inf(a) and not is_inf(b):
        return a
    if is_inf(b) and not is_inf(a):
        return -b
    if is_inf(a):
        raise Unsupported("inf-inf")
    if conc2(a, b):
        return a - b
    x, y = pair(a, b)
    return x - y


def mul(a, b):
    a, b = num(a), num(b)
    if is_inf(a) or is_inf(b):
        if conc2(a, 0) or conc2(b, 0):
            k = a if conc2(a, 0) else b
            i = b if k is a else a
            if k > 0:
                return i
            if k < 0:
                return -i
        raise Unsupported("inf*")
    if conc2(a, b):
        return a * b
    x, y = pair(a, b)
    return x * y


def neg(a):
    a = num(a)
    return -a


def truediv(a, b):
    a, b = num(a), num(b)
    if is_inf(b) and not is_inf(a):
        return 0
    if is_inf(a):
        raise Unsupported("inf/")
    if conc2(a, b):
        return Fraction(a) / Fraction(b)
    return toreal(a) / toreal(b)


def cmp(op, a, b):
    a, b = num(a), num(b)
    if is_inf(a) or is_inf(b):
        fa = a if is_inf(a) else 0.0
        fb = b if is_inf(b) else 0.0
        return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb, "==": fa == fb, "!=": fa != fb}[op]
    if conc2(a, b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    x, y = pair(a, b)
    if z3.eq(x, y):
        return op in ("<=", ">=", "==")
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
            "==": lambda: x == y, "!=": lambda: x != y}[op]()


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True or (is_z3(x) and z3.is_true(x)):
            continue
        if x is False or (is_z3(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False or (is_z3(x) and z3.is_false(x)):
            continue
        if x is True or (is_z3(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def ite(c, a, b):
    """if-then-else on scalars (and on tuples / sequences pointwise)"""
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.If(c, toz(a), toz(b))
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        if conc2(a, b) and a == b and type(a) == type(b):
            return a
        x, y = pair(a, b)
        if z3.eq(x, y):
            return x
        return z3.If(c, x, y)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq.ite(c, a, b)
    if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
        oa, ob = Opt.of(a), Opt.of(b)
        if oa.isnone is True:
            v = ob.val
        elif ob.isnone is True:
            v = oa.val
        else:
            v = ite(c, oa.val, ob.val)
        return Opt.mk(ite(c, oa.isnone, ob.isnone), v)
    if isinstance(a, SymObj) and isinstance(b, SymObj) and a.cls is b.cls:
        return SymObj(a.cls, z3.If(c, a.term, b.term))
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return z3.If(c, strz(a), strz(b))
    if isinstance(a, PathV) and isinstance(b, PathV) and len(a.parts) == len(b.parts):
        return PathV([ite(c, x, y) for x, y in zip(a.parts, b.parts)])
    if type(a).__name__ == "SetV" and type(b).__name__ == "SetV":
        if a.cls is not None and b.cls is not None and getattr(a.cls, "name", a.cls) != getattr(b.cls, "name", b.cls):
            raise Unsupported("merge sets")
        return type(a)(a.cls or b.cls, lambda t: ite(c, a.mem(t), b.mem(t)))
    if type(a) == type(b) and getattr(a, "__eq__", None) and not is_z3(a):
        try:
            if a == b:
                return a
        except Exception:
            pass
    if is_inf(a) and is_inf(b) and a == b:
        return a
    raise Unsupported("cannot merge %r / %r" % (type(a).__name__, type(b).__name__))


class Opt:
    """a value that may be None"""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    @staticmethod
    def of(v):
        if isinstance(v, Opt):
            return v
        if v is None:
            return Opt(True, None)
        return Opt(False, v)

    @staticmethod
    def mk(isnone, val):
        if isnone is True:
            return None
        if isnone is False:
            return val
        return Opt(isnone, val)


class Seq:
    """immutable finite sequence: length (int or z3 Int) and element function; `kind` keeps structure so that
    the loop rules can recognise appends / stores."""

    __slots__ = ("n", "get", "kind", "parts", "vec", "ety", "own")

    def __init__(self, n, get, kind="fn", parts=None, vec=None, ety=None):
        self.own = False    # the elements are lists that only this sequence refers to
        self.n, self.get, self.kind, self.parts, self.vec, self.ety = conc(n), get, kind, parts, vec, ety

    @staticmethod
    def lit(items):
        items = tuple(items)

        def get(i):
            i = conc(i)
            if isinstance(i, int):
                return items[i]
            if not items:
                raise Unsupported("symbolic index into empty literal")
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(toz(i) == k, items[k], r)
            return r

        return Seq(len(items), get, "lit", items)

    @staticmethod
    def ofvec(v, n=None):
        return Seq(VLEN(v) if n is None else n, lambda i: VGET(v, toz(i)), "base", None, v, "real")

    @property
    def is_lit(self):
        return isinstance(self.n, int)

    def items(self):
        assert self.is_lit
        if self.kind == "lit":
            return self.parts
        return tuple(self.get(k) for k in range(self.n))

    @staticmethod
    def ite(c, a, b):
        n = ite(c, a.n, b.n)

        def get(i):
            # an index outside one branch can only mean the other one
            if a.is_lit and (a.n == 0 or (isinstance(i, int) and i >= a.n)):
                return b.get(i)
            if b.is_lit and (b.n == 0 or (isinstance(i, int) and i >= b.n)):
                return a.get(i)
            return ite(c, a.get(i), b.get(i))

        return Seq(n, get, "ite", (c, a, b))

    def append(self, x):
        if self.is_lit:
            return Seq.lit(self.items() + (x,))
        base = self

        def get(i):
            i = conc(i)
            c = cmp("<", i, base.n)
            if c is True:
                return base.get(i)
            if c is False:
                return x
            return ite(c, base.get(i), x)

        return Seq(add(self.n, 1), get, "append", (self, x))

    def store(self, j, x):
        j = conc(j)
        if self.is_lit and isinstance(j, int):
            it = list(self.items())
            it[j] = x
            return Seq.lit(it)
        if self.is_lit:
            it = [ite(toz(j) == k, x, v) for k, v in enumerate(self.items())]
            return Seq.lit(it)
        base = self

        def get(i):
            return ite(cmp("==", i, j), x, base.get(i))

        return Seq(self.n, get, "store", (self, j, x))

    def concat(self, other):
        if self.is_lit and other.is_lit:
            return Seq.lit(self.items() + other.items())
        if isinstance(self.n, int) and self.n == 0:
            return other
        if isinstance(other.n, int) and other.n == 0:
            return self
        a, b = self, other

        def get(i):
            return ite(cmp("<", i, a.n), a.get(i), b.get(sub(i, a.n)))

        return Seq(add(a.n, b.n), get, "concat", (a, b))

    def slice(self, lo, hi):
        lo, hi = conc(lo), conc(hi)
        if self.is_lit and isinstance(lo, int) and isinstance(hi, int):
            return Seq.lit(self.items()[lo:hi])
        return Seq(sub(hi, lo), lambda i: self.get(add(i, lo)), "slice", (self, lo, hi))

    def __repr__(self):
        return "Seq(%s,%s)" % (self.n, self.kind)


class ListRef:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, ListRef) and o.addr == self.addr

    def __hash__(self):
        return hash(("L", self.addr))


class DictRef(ListRef):
    def __eq__(self, o):
        return isinstance(o, DictRef) and o.addr == self.addr

    def __hash__(self):
        return hash(("D", self.addr))


class SetRef(ListRef):
    def __eq__(self, o):
        return isinstance(o, SetRef) and o.addr == self.addr

    def __hash__(self):
        return hash(("S", self.addr))


class ObjRef:
    """object with concrete identity"""
    __slots__ = ("addr", "cls")

    def __init__(self, addr, cls):
        self.addr, self.cls = addr, cls

    def __eq__(self, o):
        return isinstance(o, ObjRef) and o.addr == self.addr

    def __hash__(self):
        return hash(("O", self.addr))


class SymObj:
    """object with symbolic identity (an element of a symbolic population)"""
    __slots__ = ("cls", "term")

    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __eq__(self, o):
        return isinstance(o, SymObj) and z3.eq(o.term, self.term)

    def __hash__(self):
        return hash(("Y", self.term.get_id()))


class HeapList:
    """frozen: a copy of the list was stored in a field of a symbolic object, so it may no longer be changed in place"""
    __slots__ = ("seq", "frozen")

    def __init__(self, seq, frozen=False):
        self.seq, self.frozen = seq, frozen


class HeapDict:
    """association list; default = callable producing default value (defaultdict)"""
    __slots__ = ("items", "default", "fmap")

    def __init__(self, items=(), default=None, fmap=None):
        self.items, self.default, self.fmap = tuple(items), default, fmap


class HeapSet:
    """listed members, or (mem, cls) for a set given by its membership predicate"""
    __slots__ = ("_items", "mem", "cls")

    def __init__(self, items=(), mem=None, cls=None):
        self._items, self.mem, self.cls = tuple(items), mem, cls

    @property
    def items(self):
        if self.mem is not None:
            raise Unsupported("members of a symbolic set listed")
        return self._items


class HeapObj:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class FMap:
    """total map from symbolic references to values: chain of updates over a base function"""

    def __init__(self, base, ups=()):
        self.base, self.ups = base, tuple(ups)

    def get(self, t):
        r = None
        r = self.base(t)
        for (k, v) in self.ups:  # later updates win
            r = k(t, r) if callable(k) else ite(t == k, v, r)
        return r

    def set(self, k, v):
        return FMap(self.base, self.ups + ((k, v),))


class PyFunc:
    def __init__(self, node, module, frame, name, cls=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.frame, self.name, self.cls = node, module, frame, name, cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.is_static = self.is_property = self.is_setter = self.is_classmethod = False
        self.decorated = None      # an unknown decorator: what the name means is not this body

    @property
    def qual(self):
        return "%s:%s" % (self.module.name, (self.cls.name + "." if self.cls else "") + self.name)


class Bound:
    def __init__(self, func, self_val):
        self.func, self.self_val = func, self_val


class Builtin:
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class ClassVal:
    def __init__(self, name, module, bases, attrs, node=None):
        self.name, self.module, self.bases, self.attrs, self.node = name, module, bases, attrs, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class ModuleVal:
    def __init__(self, name, env=None):
        self.name, self.env = name, env if env is not None else {}


class UFun:
    """uninterpreted callable (a problem's objective): vector -> real"""

    def __init__(self, app, name="f"):
        self.app, self.name = app, name


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """a value we carry around but never look into (loggers, strings built at run time)"""

    def __init__(self, what="opaque"):
        self.what = what


class SpecObj(Opaque):
    """an object of which only the contract is known: attribute name -> value or callable (a UFun)"""

    def __init__(self, attrs, what="spec object"):
        super().__init__(what)
        self.attrs = attrs


# ---------------------------------------------------------------- strings
STR = z3.StringSort()
LOWER = z3.Function("str.lower", STR, STR)
STRI = z3.Function("str.of_int", z3.IntSort(), STR)
INTOF = z3.Function("int.of_str", STR, z3.IntSort())
STEM = z3.Function("path.stem", STR, STR)
SPLITN = z3.Function("str.split_n", STR, STR, z3.IntSort())
SPLITAT = z3.Function("str.split_at", STR, STR, z3.IntSort(), STR)


def is_str(v):
    return isinstance(v, str) or (isinstance(v, z3.SeqRef) and v.sort() == STR)


def strz(v):
    return z3.StringVal(v) if isinstance(v, str) else v


def scat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    xs = []
    for x in flat_str(a) + flat_str(b):
        if xs and z3.is_string_value(x) and z3.is_string_value(xs[-1]):
            x = z3.StringVal(xs.pop().as_string() + x.as_string())
        xs.append(x)
    return z3.Concat(*xs) if len(xs) > 1 else xs[0]


def flat_str(x):
    x = strz(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for i in range(x.num_args()) for y in flat_str(x.arg(i))]
    return [x]


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    a, b = strz(a), strz(b)
    if z3.eq(a, b):
        return True
    return a == b


def str_of(v, spec=None):
    """text of a value in a format string; None when it is not modelled"""
    if isinstance(v, bool) or is_inf(v):
        return None
    if spec:
        if isinstance(v, (str, int)):
            return format(v, spec)
        if is_str(v):
            return z3.Function("fmt:" + spec, STR, STR)(v)
        if isinstance(v, z3.ArithRef):
            return z3.Function("fmt:" + spec, v.sort(), STR)(v)
        return None
    if is_str(v):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, z3.ArithRef) and v.is_int():
        return STRI(v)
    return None


class PathV:
    """a file path: its components (each one name, taken to be non-empty and without separators)"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "Path(%s)" % "/".join(str(p) for p in self.parts)


def stem(name):
    """name without its last suffix"""
    if isinstance(name, str):
        import pathlib
        return pathlib.PurePath(name).with_suffix("").name
    if name.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        last = name.arg(name.num_args() - 1)
        if z3.is_string_value(last):
            import re
            m = re.fullmatch(r"(.*)\.[^.]+", last.as_string())
            if m:
                head = [name.arg(k) for k in range(name.num_args() - 1)] + ([z3.StringVal(m.group(1))] if m.group(1) else [])
                return head[0] if len(head) == 1 else z3.Concat(*head)
    return STEM(name)
