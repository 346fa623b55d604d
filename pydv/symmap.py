"""Dictionaries with symbolic keys, and sets with symbolic members.

A dictionary is a total function from key terms to values (what the default factory gives, for an absent key) together
with the predicate of the present keys.  A list or set held by such a dictionary is addressed by a CellAddr, so that
`d[k].append(x)` changes the map; a set is its membership predicate."""
import z3
from .values import *


class SetV:
    """a set of symbolic objects (or integers): its membership predicate"""
    __slots__ = ("cls", "mem")

    def __init__(self, cls, mem):
        self.cls, self.mem = cls, mem


def elem_key(v):
    """(kind, term) of a value that can be a symbolic key"""
    v = num(v) if is_bool(v) else v
    if isinstance(v, SymObj):
        return v.cls, v.term
    if is_num(v) and is_int(v):
        return "int", toz(v)
    if isinstance(v, Seq) and v.vec is not None and is_z3(v.vec):
        return "vec", v.vec         # a vector term stands for the vector's contents
    return None, None


def key_val(kc, t):
    return t if kc == "int" else Seq.ofvec(t) if kc == "vec" else SymObj(kc, t)


class SMap:
    """kc: class of the keys ("int" for integers, None while no key is known); vk: "num", "real", "bool", "list",
    "set", "obj" or "vec"; ec: shape of the elements of a list or set (None while unknown)"""
    __slots__ = ("kc", "vk", "ec", "get", "has", "epoch")

    def __init__(self, kc, vk, ec, get, has, epoch=0):
        self.kc, self.vk, self.ec, self.get, self.has, self.epoch = kc, vk, ec, get, has, epoch

    def term(self, k):
        kc, t = elem_key(k)
        if kc is None or (self.kc is not None and kc != self.kc and getattr(kc, "name", kc) != getattr(self.kc, "name", self.kc)):
            raise Unsupported("key of another kind in a symbolic dictionary")
        return t


class Gone:
    """heap object that has become part of a symbolic dictionary; its old address is not to be used any more"""

    @property
    def seq(self):
        raise Unsupported("list used under its old address after it became part of a symbolic dictionary")

    items = mem = fields = seq


GONE = Gone()


class CellAddr:
    __slots__ = ("addr", "t", "epoch")

    def __init__(self, addr, t, epoch):
        self.addr, self.t, self.epoch = addr, t, epoch

    def __eq__(self, o):
        return isinstance(o, CellAddr) and o.addr == self.addr and z3.eq(o.t, self.t) and o.epoch == self.epoch

    def __hash__(self):
        return hash((self.addr, self.t.get_id()))


def smap(h):
    """the SMap of a HeapDict (None for another)"""
    return h.fmap["smap"] if h is not None and h.fmap is not None and "smap" in h.fmap else None


def heapdict(m, default):
    """a HeapDict for a SMap; `get`/`has` of fmap take key values"""
    def get(k):
        if m.vk in ("list", "set"):
            raise Unsupported("list of a symbolic dictionary used as a value")
        return m.get(m.term(k))

    def has(k):
        kc, t = elem_key(k)
        if kc is None or (m.kc is not None and getattr(kc, "name", kc) != getattr(m.kc, "name", m.kc)):
            return False
        return m.has(t)
    return HeapDict((), default, dict(smap=m, get=get, has=has))


class Heap(dict):
    """addresses to heap objects; the lists and sets inside symbolic dictionaries are reached by their CellAddr"""

    def __missing__(self, a):
        if isinstance(a, CellAddr):
            m = smap(dict.__getitem__(self, a.addr))
            if m is None or m.epoch != a.epoch:
                raise Unsupported("reference into a dictionary that lost the key")
            v = m.get(a.t)
            return HeapList(v) if m.vk == "list" else HeapSet(cls=v.cls, mem=v.mem)
        raise KeyError(a)

    def __setitem__(self, a, o):
        if not isinstance(a, CellAddr):
            return dict.__setitem__(self, a, o)
        h = dict.__getitem__(self, a.addr)
        m = smap(h)
        if m is None or m.epoch != a.epoch:
            raise Unsupported("reference into a dictionary that lost the key")
        if m.vk == "list":
            v, ec = o.seq, m.ec or shape_of(o.seq)
        else:
            v, ec = (SetV(o.cls, o.mem) if o.mem is not None else set_of(o)), m.ec
            ec = ec or v.cls
        old = m.get
        dict.__setitem__(self, a.addr, heapdict(SMap(m.kc, m.vk, ec, lambda t: ite(t == a.t, v, old(t)), m.has, m.epoch), h.default))

    def get(self, a, d=None):
        return self[a] if isinstance(a, CellAddr) else dict.get(self, a, d)


def set_of(h):
    """SetV of a HeapSet with listed items"""
    if h.mem is not None:
        return SetV(h.cls, h.mem)
    if not h.items:
        return SetV(None, lambda t: z3.BoolVal(False))
    ks = [elem_key(x) for x in h.items]
    if any(k is None for k, _ in ks) or len({getattr(k, "name", k) for k, _ in ks}) != 1:
        raise Unsupported("set of mixed members")
    return SetV(ks[0][0], lambda t: z3.Or(*[t == x for _, x in ks]))


def shape_of(sq):
    """shape of the elements of a sequence"""
    if sq.is_lit and sq.n == 0:
        return None
    try:
        v = sq.get(0) if sq.is_lit else sq.get(z3.Int("i?"))
    except Unsupported:
        return None
    return vshape(v)


def vshape(v):
    if isinstance(v, SymObj):
        return ("obj", v.cls)
    if is_bool(v):
        return ("bool",)
    if is_num(v):
        return ("int",) if is_int(num(v)) else ("real",)
    if isinstance(v, Seq):
        return ("vec",)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(vshape(x) for x in v)
    raise Unsupported("value of this kind in a symbolic dictionary")


DEFAULTS = {"int": "num", "float": "real", "set": "set", "list": "list", "bool": "bool"}


def default_value(default, vk, ec):
    if vk == "list":
        return Seq.lit([])
    if vk == "set":
        return SetV(ec, lambda t: z3.BoolVal(False))
    return {"num": 0, "real": 0, "bool": False}[vk]


def tomap(s, addr):
    """the dictionary as a SMap, whatever its representation"""
    h = s.heap[addr]
    if h.fmap is not None:
        m = smap(h)
        if m is None:
            raise Unsupported("dictionary of a contract changed")
        return m
    dk = DEFAULTS.get(getattr(h.default, "name", None)) if h.default is not None else None
    if h.default is not None and dk is None:
        raise Unsupported("defaultdict with another factory")
    vk, kc, ec = dk, None, None
    ents = []
    for k, v in h.items:
        c, t = elem_key(k)
        if c is None or (kc is not None and getattr(c, "name", c) != getattr(kc, "name", kc)):
            raise Unsupported("dictionary with keys of mixed kinds")
        kc = c
        if isinstance(v, DictRef):
            raise Unsupported("dictionary of dictionaries")
        if isinstance(v, SetRef):
            k2, x = "set", set_of(s.heap[v.addr])
            e2 = x.cls
        elif isinstance(v, ListRef):
            k2, x = "list", s.heap[v.addr].seq
            e2 = shape_of(x)
        elif is_bool(v):
            k2, x, e2 = "bool", v, None
        elif is_num(v):
            k2, x, e2 = ("num" if is_int(v) else "real"), v, None
        elif isinstance(v, SymObj):
            k2, x, e2 = "obj", v, v.cls
        elif isinstance(v, Seq):
            k2, x, e2 = "vec", v, None
        else:
            raise Unsupported("dictionary value of this kind")
        if vk == "num" and k2 == "real":
            vk = "real"
        if vk == "real" and k2 == "num":
            k2 = "real"
        if vk is not None and k2 != vk:
            raise Unsupported("dictionary with values of mixed kinds")
        vk = k2
        ec = ec or e2
        ents.append((t, x))
    ents = list(reversed(ents))
    if vk is None:
        return SMap(None, None, None, lambda t: None, lambda t: z3.BoolVal(False))
    base = default_value(h.default, vk, ec) if vk not in ("obj", "vec") else ents[0][1]

    def get(t):
        r = base
        for k, x in reversed(ents):
            c = z3.simplify(t == k)
            r = ite(c, x, r)
        return r
    return SMap(kc, vk, ec, get, lambda t: z3.Or(*[t == k for k, _ in ents]) if ents else z3.BoolVal(False))


def convert(eng, s, addr):
    """turn a listed dictionary into a symbolic one, in place"""
    h = s.heap[addr]
    if smap(h) is not None:
        return smap(h)
    m = tomap(s, addr)
    for k, v in h.items:
        if isinstance(v, ListRef):
            if v.addr in dict.keys(s.heap):
                dict.__setitem__(s.heap, v.addr, GONE)
    s.heap[addr] = heapdict(m, h.default)
    return m


def default_facts(eng, s, m, default):
    """an absent key has what the factory would give"""
    if default is None:
        return
    t, x = z3.Int("k!sm"), z3.Int("x!sm")
    g = m.get(t)
    no = z3.Not(m.has(t))
    if m.vk == "list":
        eng.fact(s, z3.ForAll([t], z3.Implies(no, toz(g.n) == 0)))
    elif m.vk == "set":
        eng.fact(s, z3.ForAll([t, x], z3.Implies(no, z3.Not(g.mem(x)))))
    elif m.vk == "bool":
        eng.fact(s, z3.ForAll([t], z3.Implies(no, z3.Not(toz(g)))))
    elif m.vk in ("num", "real"):
        eng.fact(s, z3.ForAll([t], z3.Implies(no, toz(g) == 0)))


def fresh_elem(eng, ec, nargs=2):
    if ec[0] == "obj":
        f = eng.fresh_fun("me", nargs, z3.IntSort())
        return lambda *a: SymObj(ec[1], f(*a))
    if ec[0] == "vec":
        f = eng.fresh_fun("me", nargs, Vec)
        return lambda *a: Seq.ofvec(f(*a))
    if ec[0] == "tuple":
        fs = [fresh_elem(eng, e, nargs) for e in ec[1:]]
        return lambda *a: tuple(f(*a) for f in fs)
    f = eng.fresh_fun("me", nargs, {"bool": z3.BoolSort(), "int": z3.IntSort(), "real": z3.RealSort()}[ec[0]])
    return lambda *a: f(*a)


def havoc_map(eng, s, addr, samples):
    """arbitrary contents of the shapes the samples (SMaps) have"""
    h = s.heap[addr]
    kc = next((m.kc for m in samples if m.kc is not None), None)
    vk = next((m.vk for m in samples if m.vk is not None), None)
    if any(m.vk == "real" for m in samples):
        vk = "real"
    ecs = [m.ec for m in samples if m.ec is not None]
    ec = ecs[0] if ecs else None
    if any(e != ec for e in ecs) and not all(getattr(e, "name", e) == getattr(ec, "name", ec) for e in ecs):
        if all(isinstance(e, tuple) and e[0] in ("int", "real") for e in ecs):
            ec = ("real",)
        else:
            raise Unsupported("dictionary with elements of mixed kinds")
    if kc is None or vk is None:
        raise Unsupported("symbolic dictionary of unknown shape")
    if len({m.epoch for m in samples}) > 1:
        raise Unsupported("keys removed inside a loop")
    epoch = samples[0].epoch
    hf = eng.fresh_fun("mh", 1, z3.BoolSort())
    t = z3.Int("k!sm")
    if vk == "list":
        nf = eng.fresh_fun("mn", 1, z3.IntSort())
        eng.fact(s, z3.ForAll([t], nf(t) >= 0, patterns=[nf(t)]))
        if ec is None:
            def no(*a):
                raise Unsupported("element of a list of unknown shape")
            ef = no
        else:
            ef = fresh_elem(eng, ec)
        get = lambda t: Seq(nf(t), lambda i: ef(t, toz(i)))
    elif vk == "set":
        mf = eng.fresh_fun("mm", 2, z3.BoolSort())
        get = lambda t: SetV(ec, lambda x: mf(t, x))
    elif vk in ("num", "real", "bool"):
        f = eng.fresh_fun("mv", 1, {"num": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[vk])
        get = lambda t: f(t)
    elif vk == "obj":
        f = eng.fresh_fun("mv", 1, z3.IntSort())
        get = lambda t: SymObj(ec, f(t))
    else:
        raise Unsupported("symbolic dictionary of vectors changed by a loop")
    m = SMap(kc, vk, ec, get, lambda t: hf(t), epoch)
    convert(eng, s, addr)
    s.heap[addr] = heapdict(m, h.default)
    default_facts(eng, s, m, h.default)
    return m


def map_fits(h, v):
    """does the end value have the assumed shape?"""
    if v.kc is not None and getattr(v.kc, "name", v.kc) != getattr(h.kc, "name", h.kc):
        return False
    if v.vk not in (None, h.vk) and not (h.vk == "real" and v.vk == "num"):
        return False
    if v.epoch != h.epoch:
        raise Unsupported("keys removed inside a loop")
    if v.ec is not None and getattr(v.ec, "name", v.ec) != getattr(h.ec, "name", h.ec) and not (h.ec == ("real",) and v.ec == ("int",)):
        return False
    return True


def enumerate_set(eng, st, sv):
    """a finite set as a sequence: some enumeration without repetition"""
    if sv.cls is None:
        return Seq.lit([])
    n = eng.fresh_int("ns")
    ks = Vec if sv.cls == "vec" else z3.IntSort()
    F = z3.Function("senum!%d" % next(eng.counter), z3.IntSort(), ks) if sv.cls == "vec" else eng.fresh_fun("senum", 1, z3.IntSort())
    R = key_fun(eng, "srank", ks, z3.IntSort())
    i, t = z3.Int("i!se"), z3.Const("t!se", ks)
    eng.fact(st, n >= 0)
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sv.mem(F(i)), R(F(i)) == i)), patterns=[F(i)]))
    eng.fact(st, z3.ForAll([t], z3.Implies(sv.mem(t), z3.And(0 <= R(t), R(t) < n, F(R(t)) == t)), patterns=[R(t)] if not z3.is_app(sv.mem(t)) or sv.mem(t).decl().kind() != z3.Z3_OP_UNINTERPRETED else [sv.mem(t)]))
    return Seq(n, lambda i: key_val(sv.cls, F(toz(i))), "senum", (F, R, sv))


def key_fun(eng, name, dom, ran):
    if dom == z3.IntSort():
        return eng.fresh_fun(name, 1, ran)
    if eng.ctx:
        raise Unsupported("collection of vectors inside a comprehension")
    return z3.Function("%s!%d" % (name, next(eng.counter)), dom, ran)


def tables(eng, st, sq, keyof):
    """(class of the keys, HAS, LAST) for the keys keyof(element) of a symbolic sequence: HAS(t) - some element has
    the key t; LAST(t) - the index of the last one that has it"""
    n = toz(sq.n)
    i, t = z3.Int("i!fp%d" % next(eng.counter)), z3.Int("t!fp%d" % next(eng.counter))
    kc, kt = elem_key(keyof(sq.get(i)))
    if kc is None:
        raise Unsupported("collection over a symbolic sequence with keys of this kind")
    K = lambda j: elem_key(keyof(sq.get(j)))[1]
    t = z3.Const(str(t), kt.sort())
    H, L = key_fun(eng, "has", kt.sort(), z3.BoolSort()), key_fun(eng, "last", kt.sort(), z3.IntSort())
    eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(H(kt), L(kt) >= i, L(kt) < n)), patterns=[H(kt), L(kt)] if z3.is_const(kt) else [kt] if z3.is_app(kt) and kt.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    kl = K(L(t))
    eng.fact(st, z3.ForAll([t], z3.Implies(H(t), z3.And(0 <= L(t), L(t) < n, kl == t)), patterns=[H(t), L(t)]))
    return kc, (lambda t: H(t)), (lambda t: L(t))


def from_pairs(eng, st, sq):
    """dict built from a symbolic sequence of pairs"""
    if sq.kind == "flat":
        return from_product(eng, st, sq)
    i = z3.Int("i!fq%d" % next(eng.counter))
    probe = sq.get(i)
    if not (isinstance(probe, tuple) and len(probe) == 2):
        raise Unsupported("dictionary over a symbolic sequence of this kind")
    v = probe[1]
    kc, H, L = tables(eng, st, sq, lambda x: x[0])
    conv, ec = (lambda x: x), None
    if is_bool(v):
        vk = "bool"
    elif is_num(v):
        vk = "num" if is_int(v) else "real"
    elif isinstance(v, SymObj):
        vk, ec = "obj", v.cls
    elif isinstance(v, ListRef):
        raise Unsupported("dictionary of lists over a symbolic sequence")
    elif isinstance(v, Seq):
        vk, ec = "list", shape_of(v)
    else:
        vk = "any"
    return heapdict(SMap(kc, vk, ec, lambda t: conv(sq.get(L(t))[1]), H), None)


def from_product(eng, st, sq):
    """dict whose keys are the pairs (a, b) of two symbolic sequences, a of the outer and b of the inner one"""
    n, cond, inner = sq.parts
    c = next(eng.counter)
    i, j = z3.Int("i!pp%d" % c), z3.Int("j!pp%d" % c)
    block = inner(i)
    bad = Unsupported("dictionary over a symbolic product")
    if cond is not None or block.kind in ("flat", "filter") or (is_z3(block.n) and mentions(block.n, i)):
        raise bad
    x = block.get(j)
    if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 2):
        raise bad
    (ca, ta), (cb, tb) = elem_key(x[0][0]), elem_key(x[0][1])
    if ca in (None, "vec") or cb in (None, "vec"):
        raise bad
    if mentions(ta, j) or mentions(tb, i):
        raise bad
    A = Seq(n, lambda k: key_val(ca, z3.substitute(ta, (i, toz(k)))))
    B = Seq(block.n, lambda k: key_val(cb, z3.substitute(tb, (j, toz(k)))))
    _, ha, la = tables(eng, st, A, lambda v: v)
    _, hb, lb = tables(eng, st, B, lambda v: v)

    def terms(key):
        if not (isinstance(key, tuple) and len(key) == 2):
            return None
        (c1, t1), (c2, t2) = elem_key(key[0]), elem_key(key[1])
        if getattr(c1, "name", c1) != getattr(ca, "name", ca) or getattr(c2, "name", c2) != getattr(cb, "name", cb):
            return None
        return t1, t2

    def get(key):
        t = terms(key)
        if t is None:
            raise Unsupported("key of another kind in a symbolic dictionary")
        return inner(la(t[0])).get(lb(t[1]))[1]

    def has(key):
        t = terms(key)
        return False if t is None else z3.And(ha(t[0]), hb(t[1]))

    def distinct(kt, v, m):
        a, b = z3.Int("a!pp%d" % c), z3.Int("b!pp%d" % c)
        return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < toz(m)), z3.substitute(kt, (v, a)) != z3.substitute(kt, (v, b))))

    def values(s):
        """the values in the order of the product, when no key occurs twice"""
        if not eng.prove(eng.hyps(s), z3.And(distinct(ta, i, n), distinct(tb, j, block.n)), 3000):
            raise Unsupported("values of a dictionary over a product with keys that may repeat")
        from .loops import Seq_flat
        return Seq_flat(eng, n, None, lambda k: Seq(inner(k).n, lambda l: inner(k).get(l)[1]))
    return HeapDict((), None, dict(get=get, has=has, values=values))


def mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, v):
            return True
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def set_from(eng, st, sq):
    if sq.kind == "flat":
        raise Unsupported("set over a symbolic product")
    kc, H, L = tables(eng, st, sq, lambda x: x)
    return HeapSet(mem=H, cls=kc)


def merge_maps(c, p, q, sa, sb, addr):
    m1, m2 = tomap(sa, addr), tomap(sb, addr)
    if m1.vk is None or m2.vk is None or m1.vk != m2.vk or m1.epoch != m2.epoch or (m1.kc is not None and m2.kc is not None and getattr(m1.kc, "name", m1.kc) != getattr(m2.kc, "name", m2.kc)):
        raise Unsupported("merge symbolic dicts")
    return heapdict(SMap(m1.kc or m2.kc, m1.vk, m1.ec or m2.ec, lambda t: ite(c, m1.get(t), m2.get(t)), lambda t: ite(c, m1.has(t), m2.has(t)), m1.epoch), p.default)
