"""The invariant rule for loops: a contract offers candidate invariants (over program and ghost state); those that hold
on entry and are preserved by an arbitrary iteration are kept (Houdini), the others are dropped.  Every location the
body may change is havocked, the kept invariants are assumed, and the code after the loop sees only them and the
negated loop test.  Partial correctness: termination is not shown by this rule."""
import z3
from .values import *
from . import loops, solve, symmap
from .symmap import CellAddr
from .loops import diff_locs, read_loc, write_loc, make_ph, NeedPeel


def havoc_value(eng, loc, vals):
    """an arbitrary value of the shape the location takes"""
    from .engine import Broken
    vals = [v for v in vals if not isinstance(v, Broken)]
    if not vals:
        return Broken("local carried around a loop")
    isnone = [v is None or isinstance(v, Opt) for v in vals]
    some = [v.val if isinstance(v, Opt) else v for v in vals if v is not None]
    if not some:
        return None
    if any(isnone):
        return Opt.mk(eng.fresh("none", z3.BoolSort()), havoc_value(eng, loc, some))
    if all(is_bool(v) for v in some):
        return eng.fresh("hb", z3.BoolSort())
    if all(is_num(v) or is_bool(v) for v in some):
        return eng.fresh("hv", z3.IntSort() if all(is_int(num(v)) for v in some) else z3.RealSort())
    if all(is_str(v) for v in some):
        return eng.fresh("hstr", STR)
    if all(isinstance(v, SymObj) for v in some) and len({v.cls.name for v in some}) == 1:
        return SymObj(some[0].cls, eng.fresh("ho", z3.IntSort()))
    if all(isinstance(v, Opaque) and getattr(v, "t", None) is not None for v in some):
        return type(some[0])(eng.fresh("ht", z3.IntSort()))
    if all(isinstance(v, tuple) for v in some) and len({len(v) for v in some}) == 1:
        return tuple(havoc_value(eng, loc, [v[i] for v in some]) for i in range(len(some[0])))
    if all(isinstance(v, Seq) for v in some):
        best = [v for v in some if not (v.is_lit and v.n == 0)] or some
        if best[0].vec is not None and loc[0] != "h" and loc[0] != "lv":
            t = eng.fresh("hvec", Vec)
            return Seq.ofvec(t, best[0].n)
        real = False
        for v in best:
            try:
                x = v.get(z3.Int("i?")) if not v.is_lit else v.get(0)
                real = real or (is_num(x) and not is_int(num(x)))
            except Unsupported:
                pass
        p = make_ph(eng, loc, best[-1], "real" if real else None)
        return p.val
    if all(isinstance(v, FMap) for v in some):
        from .engine import Undef
        shapes = []
        for fm in some:
            t = z3.Int("ref?")
            for x in [u[1] for u in fm.ups if not callable(u[0])] + [fm.base(t)]:
                if not isinstance(x, Undef):
                    shapes.append(x)
        return fresh_fmap(eng, shapes)
    return Broken("location carried around a loop")


def fresh_fmap(eng, shapes):
    """a field with arbitrary values of the given shapes, for every object"""
    I = z3.IntSort()
    isnone = [v is None or isinstance(v, Opt) for v in shapes]
    some = [v.val if isinstance(v, Opt) else v for v in shapes if v is not None]
    if any(isnone):
        nf = eng.fresh_fun("fnone", 1, z3.BoolSort())
        inner = fresh_fmap(eng, some) if some else FMap(lambda t: None)
        return FMap(lambda t: Opt.mk(nf(t), inner.get(t)))
    if all(is_bool(v) for v in some):
        f = eng.fresh_fun("ffb", 1, z3.BoolSort())
    elif all(is_num(v) for v in some):
        f = eng.fresh_fun("ffn", 1, I if all(is_int(num(v)) for v in some) else z3.RealSort())
    elif all(isinstance(v, Seq) for v in some):
        f = eng.fresh_fun("ffv", 1, Vec)
        t = z3.Int("t!vl")
        eng.havoc_facts.append(z3.ForAll([t], VLEN(f(t)) >= 0, patterns=[VLEN(f(t))]))
        return FMap(lambda t: Seq.ofvec(f(t)))
    elif all(isinstance(v, SymObj) for v in some) and len({v.cls.name for v in some}) == 1:
        f = eng.fresh_fun("ffo", 1, I)
        return FMap(lambda t: SymObj(some[0].cls, f(t)))
    elif some and all(isinstance(v, Opaque) and getattr(v, "t", None) is not None for v in some):
        f = eng.fresh_fun("fft", 1, I)
        return FMap(lambda t: type(some[0])(f(toz(t))))
    else:
        raise Unsupported("field of mixed shape changed by a loop")
    return FMap(lambda t: f(t))


DEBUG = False


class Round:
    """saves and restores what running a loop body adds to the engine"""

    def __init__(self, eng):
        self.eng = eng
        self.o, self.r = list(eng.obls), [list(x) for x in eng.raised]

    def undo(self):
        self.eng.obls[:] = self.o
        self.eng.raised[:] = [list(x) for x in self.r]


def exec_inv(eng, node, st, sq=None, it=None):
    eng.loop_seq = sq
    cands = list(eng.loop_inv(eng, st))
    k0 = 0
    live = []
    # a loop walks over the collection itself: that the body leaves it alone is an invariant that must hold
    must = []
    if isinstance(it, (ListRef, DictRef, SetRef)) and isinstance(it.addr, CellAddr):
        must = [lambda s, k: unchanged(eng, s, it, sq)]
        cands = must + cands
    eng.inv_stack.append(None)
    try:
        return _exec_inv(eng, node, st, sq, it, cands, must)
    finally:
        eng.inv_stack.pop()


def unchanged(eng, s, it, sq):
    i = z3.Int("i!un")
    if isinstance(it, SetRef):
        h = symmap.set_of(s.heap[it.addr])
        return z3.ForAll([i], h.mem(i) == sq.parts[2].mem(i))
    if isinstance(it, DictRef):
        raise Unsupported("dictionary inside a dictionary")
    cur = s.heap[it.addr].seq
    return z3.And(toz(cur.n) == toz(sq.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < toz(sq.n)), toz(eng.eq(s, cur.get(i), sq.get(i))))))


def ckey(node, c):
    """identity of a candidate over several runs of the same loop"""
    def k(v):
        if callable(v):
            return (v.__code__.co_firstlineno, v.__code__.co_code, tuple(k(x) for x in v.__defaults__ or ())) if hasattr(v, "__code__") else repr(v)
        return v.get_id() if is_z3(v) else (type(v).__name__, v.addr) if isinstance(v, (ListRef, ObjRef)) else repr(v)
    return (id(node), k(c))


def loc_now(s, l):
    return symmap.tomap(s, l[1]) if l[0] == "d" else symmap.set_of(s.heap[l[1]]) if l[0] == "s" else read_loc(s, l)


def havoc_loc(eng, st, s, l, samples):
    if l[0] == "d":
        symmap.havoc_map(eng, s, l[1], [symmap.tomap(st, l[1])] + samples)
        return
    if l[0] == "s":
        cls = next((v.cls for v in [symmap.set_of(st.heap[l[1]])] + samples if v.cls is not None), None)
        if cls is None:
            raise Unsupported("set of unknown members changed by a loop")
        f = eng.fresh_fun("hs", 1, z3.BoolSort())
        s.heap[l[1]] = HeapSet(mem=lambda x: f(x), cls=cls)
        return
    pre = read_loc(st, l) if l[0] not in ("n", "on") else None
    eng.havoc_facts = []
    if l[0] in ("v", "o") and plain_list(pre) and all(isinstance(v, Lst) for v in samples):
        # a list variable that is bound to a new list in the loop: an arbitrary list of its own (rebound() sees to
        # it that nothing else refers to that list)
        v = havoc_value(eng, ("h", pre.addr), [st.heap[pre.addr].seq] + [v.seq for v in samples])
        if isinstance(v, Seq):
            if is_z3(v.n):
                s.assume(v.n >= 0)
            for f in eng.havoc_facts:
                eng.fact(s, f)
            r = ListRef(eng.alloc(s, HeapList(v)))
            write_loc(s, l, r)
            eng.own_lists[-1][l] = (r.addr, pre.addr)
            return
    if any(isinstance(v, Lst) for v in samples):
        raise Unsupported("location bound to a list in a loop")
    v = havoc_value(eng, l, ([pre] if l[0] not in ("n", "on") else []) + samples)
    if l[0] in ("n", "on"):
        from .engine import Broken
        if l[0] == "n":
            s.frames[l[1]][l[2]] = Broken("local assigned in a loop")
            return
        raise Unsupported("attribute created in a loop")
    if isinstance(v, Seq) and is_z3(v.n):
        s.assume(v.n >= 0)
    if isinstance(v, Seq) and v.vec is not None and is_z3(v.vec):
        eng.havoc_facts.append(VLEN(v.vec) >= 0)
    for f in eng.havoc_facts:
        eng.fact(s, f)
    write_loc(s, l, v)


class Lst:
    """contents of a list that a location was bound to at the end of an iteration"""

    def __init__(self, seq):
        self.seq = seq


def plain_list(v):
    return isinstance(v, ListRef) and not isinstance(v, (DictRef, SetRef)) and not isinstance(v.addr, CellAddr)


def references(eng, v, addr, depth=0):
    if plain_list(v):
        return v.addr == addr
    if isinstance(v, tuple):
        return any(references(eng, x, addr, depth) for x in v)
    if isinstance(v, Opt):
        return references(eng, v.val, addr, depth)
    return False


def rebound(eng, e, head, locs, own):
    """a location bound to a new list in each iteration is havocked to a list of its own: nothing else that lives on
    may refer to that list at the end of an iteration"""
    from .engine import Broken
    for l in own:
        v = read_loc(e, l)
        if not plain_list(v):
            continue
        for f, fr in e.frames.items():
            if f not in head.frames:
                continue
            for n, x in fr.items():
                if ("v", f, n) == l or isinstance(head.frames[f].get(n), Broken) or n not in head.frames[f]:
                    continue
                if references(eng, x, v.addr):
                    raise Unsupported("list bound in a loop under two names")
        for a, h in e.heap.items():
            if isinstance(h, HeapObj):
                if any(("o", a, n) != l and references(eng, x, v.addr) for n, x in h.fields.items()):
                    raise Unsupported("list bound in a loop under two names")
            elif isinstance(h, HeapDict) and h.fmap is None:
                if any(references(eng, x, v.addr) for _, x in h.items):
                    raise Unsupported("list bound in a loop kept in a dictionary")
            elif isinstance(h, HeapList) and head.heap.get(a) is not h and a != v.addr:
                xs = h.seq.items() if h.seq.is_lit else [h.seq.get(z3.Int("i?"))]
                if any(references(eng, x, v.addr) or (plain_list(x) and not h.seq.is_lit) for x in xs):
                    raise Unsupported("list bound in a loop kept in a list")


def _exec_inv(eng, node, st, sq, it, cands, must):
    eng.own_lists.append({})
    try:
        return _exec_inv2(eng, node, st, sq, it, cands, must)
    finally:
        eng.own_lists.pop()


def _exec_inv2(eng, node, st, sq, it, cands, must):
    k0 = 0
    live = []
    eng.inv_stack[-1] = (node, sq, None, st)
    eng.inv_phase = "entry"
    if len(eng.inv_stack) == 1:
        eng.inv_dropped = set()
    first = len(eng.inv_stack) > 1 and id(node) not in eng.inv_seen[-1]    # first time in this run of the enclosing body
    if eng.inv_seen:
        eng.inv_seen[-1].add(id(node))
    for c in cands:
        # a candidate dropped when the same loop was run under stronger assumptions is not tried again
        if first and ckey(node, c) in eng.inv_dropped and not any(c is m for m in must):
            continue
        if holds(eng, c, st, k0):
            live.append(c)
        elif first:
            eng.inv_dropped.add(ckey(node, c))
    rd = Round(eng)
    locs, samples = [], {}
    for rnd in range(40):
        rd.undo()
        s = st.copy()
        own = eng.own_lists[-1]
        own.clear()
        k = eng.fresh_int("it")
        s.assume(k >= 0)
        for l in locs:
            havoc_loc(eng, st, s, l, samples[l])
        eng.inv_phase = "head"
        eng.inv_stack[-1] = (node, sq, k, s)
        for c in live:
            try:
                f = c(s, k)
            except Unsupported:
                continue    # not expressible before the shape of a havocked location is known: nothing is assumed
            if f is not None:
                s.assume(toz(f))
        head = s.copy()
        eng.inv_stack[-1] = (node, sq, k, head)
        done, ends, exits = [], [], []
        eng.inv_seen.append(set())
        if sq is None:
            for s2, v in eng.ev(node.test, s):
                for s3, side in eng.fork(s2, eng.truth(v, s2)):
                    if not side:
                        exits.append(s3)
                    else:
                        done += eng.exec_block(node.body, s3)
        else:
            ex = s.copy()
            ex.assume(k == toz(sq.n))
            exits.append(ex)
            s.assume(k < toz(sq.n))
            for s3 in eng.assign(node.target, sq.get(k), s):
                done += eng.exec_block(node.body, s3)
        eng.inv_seen.pop()
        brk, ret = [], []
        for s4, o in done:
            if s4.dead():
                continue
            if o is None or o[0] == "continue":
                ends.append(s4)
            elif o[0] == "break":
                brk.append(s4)
            else:
                ret.append((s4, o))
        new = False
        for e in ends + exits + brk:
            for l in diff_locs(st, e):
                if it is not None and isinstance(it, (ListRef, DictRef, SetRef)) and not isinstance(it.addr, CellAddr) and l[0] in ("h", "d", "s") and l[1] == it.addr:
                    raise Unsupported("loop changes the collection it walks over")
                if l not in locs:
                    locs.append(l)
                    samples[l] = []
                    new = True
        # havocked locations: does the end value still have the assumed shape?
        for e in ends:
            for l in locs:
                if l[0] in ("n", "on"):
                    continue
                v = loc_now(e, l)
                if l[0] in ("v", "o") and plain_list(v) and plain_list(read_loc(st, l)):
                    sq2 = e.heap[v.addr].seq
                    if l not in own or not fits(head.heap[own[l][0]].seq, sq2):
                        samples[l].append(Lst(sq2))
                        new = True
                    continue
                if not (symmap.map_fits(loc_now(head, l), v) if l[0] == "d" else l[0] == "s" or fits(loc_now(head, l), v)):
                    samples[l].append(v)
                    new = True
            # the list a location had before the loop, where the body changes it in place
            for l, (a, pre) in own.items():
                if e.heap.get(a) is not head.heap.get(a) and ("h", pre) not in locs:
                    locs.append(("h", pre))
                    samples[("h", pre)] = []
                    new = True
        if new:
            continue
        for e in ends:
            rebound(eng, e, head, locs, own)
        eng.inv_phase = "end"
        eng.inv_stack[-1] = (node, sq, k, head)
        bad = [c for c in live if not all(holds(eng, c, e, k + 1) for e in ends)]
        if bad:
            if DEBUG:
                for c in bad:
                    print("dropped at line", node.lineno, cands.index(c), [c(e, k + 1) for e in ends if not holds(eng, c, e, k + 1)])
            if first:
                eng.inv_dropped |= {ckey(node, c) for c in bad}
            eng.dropped_tags |= {c.tag for c in bad if hasattr(c, "tag")}
            live = [c for c in live if not any(c is b for b in bad)]
            continue
        break
    else:
        raise Unsupported("loop invariants do not stabilise")
    if isinstance(it, ListRef) and not isinstance(it.addr, CellAddr) and st.heap.get(it.addr) is not symmap.GONE and any(e.heap.get(it.addr) is symmap.GONE for e in ends):
        raise Unsupported("the collection a loop walks over becomes part of a symbolic dictionary")
    if any(not any(m is c for c in live) for m in must):
        raise Unsupported("loop may change the collection it walks over")
    eng.inv_log.append((eng.current, getattr(node, "lineno", 0), len(live)))
    out = []
    for e in exits:
        # the loop may also run zero times: the exit state covers it because the invariants hold on entry
        out += eng.exec_block(node.orelse, e) if node.orelse else [(e, None)]
    return out + [(b, None) for b in brk] + ret


def fits(h, v):
    from .engine import Broken
    if isinstance(h, Broken):
        return True
    if isinstance(h, Opt):
        return v is None or isinstance(v, Opt) and fits(h.val, v.val) or fits(h.val, v)
    if is_bool(h):
        return is_bool(v)
    if is_num(h):
        return is_num(v) and (is_int(num(v)) or not is_int(h)) and not is_inf(v)
    if is_str(h):
        return is_str(v)
    if isinstance(h, SymObj):
        return isinstance(v, SymObj) and v.cls.name == h.cls.name
    if isinstance(h, tuple):
        return isinstance(v, tuple) and len(v) == len(h) and all(fits(a, b) for a, b in zip(h, v))
    if isinstance(h, Seq):
        if not isinstance(v, Seq) or (h.own and not v.own):
            return False
        try:
            a = h.get(z3.Int("i?"))
        except Unsupported:
            return v.is_lit and v.n == 0 or v is h
        try:
            b = v.get(z3.Int("i?")) if not v.is_lit else (v.get(0) if v.n else a)
        except Unsupported:
            return False
        return fits(a, b)
    if isinstance(h, Opaque):
        return isinstance(v, Opaque)
    if isinstance(h, FMap) and isinstance(v, FMap):
        a = h.get(z3.Int("ref?"))
        return all(fits(a, x) for x in [u[1] for u in v.ups if not callable(u[0])])
    return h is v


def holds(eng, c, s, k):
    s = s.copy()    # candidates may add instances of lemmas
    try:
        f = c(s, k)
    except Unsupported:
        return False
    if f is None:
        return True
    if s.dead():
        return True
    hy = eng.hyps(s)
    return eng.prove(hy + sum_steps(eng, hy + [toz(f)], k), toz(f), eng.inv_timeout)


def sum_steps(eng, fs, k):
    """S(k+1) = S(k) + term(k) for the sums that occur at the end of the current iteration"""
    out = []
    if isinstance(k, int):
        return out
    for a in eng.bigops.apps([f for f in fs if is_z3(f)]):
        i = eng.bigops.info[a.decl().name()]
        if i["kind"] != "sum" or solve.has_var(a) or not z3.is_true(z3.simplify(a.arg(0) == k)):
            continue
        m = z3.simplify(a.arg(0) - 1)
        bs = [a.arg(q) for q in range(1, a.num_args())]
        out.append(z3.Implies(m >= 0, a == i["f"](*([m] + bs)) + z3.substitute(i["e"], (eng.bigops.K, m), *zip(i["bs"], bs))))
    return out
