from .lib import *

D = "algorithms.base.drivertools:"


def box(P, name="dims", n=None):
    """bounds: a list of (low, high) pairs with low < high"""
    n = P.int("n", 1) if n is None else n
    lo, hi = P.fn1("LO", z3.IntSort(), z3.RealSort()), P.fn1("HI", z3.IntSort(), z3.RealSort())
    k = z3.Int("k!box")
    P.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), lo(k) < hi(k)), patterns=[lo(k)]))
    P.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), lo(k) < hi(k)), patterns=[hi(k)]))
    return n, lo, hi, P.lst(Seq(n, lambda i: (lo(toz(i)), hi(toz(i)))))


def inside(P, nm, n, lo, hi):
    """a parent inside the box, as a list"""
    f = P.fn1(nm, z3.IntSort(), z3.RealSort())
    k = z3.Int("k!" + nm)
    P.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(lo(k) <= f(k), f(k) <= hi(k))), patterns=[f(k)]))
    return f, P.lst(Seq(n, lambda i: f(toz(i))))


def in_box(P, s, v, n, lo, hi, what=""):
    r = P.seq(v, s)
    P.ensure(s, what + "one value per variable", toz(r.n) == n)
    P.ensure(s, what + "every value within its bounds", forall(n, lambda k: z3.And(lo(k) <= R(r.get(k)), R(r.get(k)) <= hi(k))))


def unchanged(P, s, lst, f, n, what):
    r = P.seq(lst, s)
    P.ensure(s, what + " not modified", z3.And(toz(r.n) == n, toz(forall(n, lambda k: R(r.get(k)) == f(k)))))


@proof("C04", "polynomial mutation stays in the box, any dimension", D + "mutate")
def mut(P):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    rate, eta = P.real("rate"), P.real("eta")
    P.assume(eta >= 0)
    for s, v in P.call(D + "mutate", [xs, dims, rate, eta]):
        in_box(P, s, v, n, lo, hi)
        unchanged(P, s, xs, f, n, "parent")
        r = P.seq(v, s)
        P.ensure(s, "rate zero copies the parent", z3.Implies(rate <= 0, toz(forall(n, lambda k: R(r.get(k)) == f(k)))))
        P.ensure(s, "the result is a new list", not (isinstance(v, ListRef) and v == xs))


@proof("C04", "simulated binary crossover stays in the box, any dimension", D + "crossover")
def sbx(P):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    g, ys = inside(P, "Y", n, lo, hi)
    rate, eta = P.real("rate"), P.real("eta")
    P.assume(eta >= 0)
    for s, v in P.call(D + "crossover", [xs, ys, dims, rate, eta]):
        in_box(P, s, v, n, lo, hi)
        unchanged(P, s, xs, f, n, "first parent")
        unchanged(P, s, ys, g, n, "second parent")
        r = P.seq(v, s)
        P.ensure(s, "rate zero reproduces a parent", z3.Implies(rate <= 0, z3.Or(toz(forall(n, lambda k: R(r.get(k)) == f(k))), toz(forall(n, lambda k: R(r.get(k)) == g(k))))))
        P.ensure(s, "the result is a new list", not (isinstance(v, ListRef) and v in (xs, ys)))


@proof("C04", "initial population inside the box, any size and dimension", "evotools.ea_utils:gen_population")
def genpop(P):
    n, lo, hi, dims = box(P)
    c = P.int("count", 0)
    for s, v in P.call("evotools.ea_utils:gen_population", [c, dims]):
        r = P.seq(v, s)
        P.ensure(s, "requested number of solutions", toz(r.n) == c)
        ind = lambda i: P.seq(r.get(i), s)
        P.ensure(s, "one value per variable", forall(c, lambda i: toz(ind(i).n) == n))
        P.ensure(s, "values in their bounds", forall(c, lambda i: forall(n, lambda k: z3.And(lo(k) <= R(ind(i).get(k)), R(ind(i).get(k)) <= hi(k)))))


@proof("C04", "Gaussian mutation stays in the box, any dimension", D + "old_mutate")
def oldmut(P):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    rate = P.real("rate")
    sg = P.lst(P.reals("SG", n))
    for s, v in P.call(D + "old_mutate", [xs, dims, rate, sg]):
        in_box(P, s, v, n, lo, hi)
        unchanged(P, s, xs, f, n, "parent")
        r = P.seq(v, s)
        P.ensure(s, "probability zero copies the parent", z3.Implies(rate <= 0, toz(forall(n, lambda k: R(r.get(k)) == f(k)))))


def between(P, fn, extra=()):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    g, ys = inside(P, "Y", n, lo, hi)
    for s, v in P.call(D + fn, [xs, ys] + [e(P, n, dims) for e in extra]):
        in_box(P, s, v, n, lo, hi)
        unchanged(P, s, xs, f, n, "first parent")
        unchanged(P, s, ys, g, n, "second parent")
        r = P.seq(v, s)
        P.ensure(s, "between the parents", forall(n, lambda k: z3.Or(z3.And(f(k) <= R(r.get(k)), R(r.get(k)) <= g(k)), z3.And(g(k) <= R(r.get(k)), R(r.get(k)) <= f(k)))))


@proof("C04", "blend crossover stays between the parents", D + "old_crossover")
def oldcross(P):
    between(P, "old_crossover")


@proof("C04", "triangular crossover stays between the parents", D + "crossover_triangular")
def tricross(P):
    between(P, "crossover_triangular")


def variances(P, n, dims):
    f = P.fn1("CV", z3.IntSort(), z3.RealSort())
    k = z3.Int("k!CV")
    P.fact(z3.ForAll([k], f(k) > 0, patterns=[f(k)]))
    return P.lst(Seq(n, lambda i: f(toz(i))))


@proof("C04", "beta crossover stays between the parents", D + "crossover_beta")
def betacross(P):
    between(P, "crossover_beta", [lambda P, n, dims: dims, variances])


@proof("C04", "a sprout's population is mutants of its delegate", "algorithms.HGS.tools:population_from_delegate")
def delegate(P):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    rate, eta, size = P.real("rate"), P.real("eta"), P.int("size", 1)
    P.assume(eta >= 0)
    use_mutate(P)
    for s, v in P.call("algorithms.HGS.tools:population_from_delegate", [xs, size, dims, rate, eta]):
        r = P.seq(v, s)
        ind = lambda i: P.seq(r.get(i), s)
        P.ensure(s, "configured size", toz(r.n) == size)
        P.ensure(s, "one value per variable", forall(size, lambda i: toz(ind(i).n) == n))
        P.ensure(s, "values in their bounds", forall(size, lambda i: forall(n, lambda k: z3.And(lo(k) <= R(ind(i).get(k)), R(ind(i).get(k)) <= hi(k)))))
        P.ensure(s, "the first one is the delegate", forall(n, lambda k: R(ind(0).get(k)) == f(k)))
        unchanged(P, s, xs, f, n, "delegate")


def use_mutate(P):
    """callers see only the contract of `mutate` proved above: any vector of the parent's length, inside the box; the parent itself at rate 0"""
    def h(eng, st, args, kw, node):
        xs, dims = eng.seq_of(args[0], st), eng.seq_of(args[1], st)
        m = eng.fresh_fun("mut", 1, z3.RealSort())
        k = z3.Int("k!m")
        eng.oblige(st, "precondition of mutate: parent inside the box", forall(xs.n, lambda i: z3.And(R(dims.get(i)[0]) <= R(xs.get(i)), R(xs.get(i)) <= R(dims.get(i)[1]))))
        st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < toz(xs.n)), z3.And(R(dims.get(k)[0]) <= m(k), m(k) <= R(dims.get(k)[1])))))
        st.facts.append(z3.ForAll([k], z3.Implies(z3.And(R(args[2]) <= 0, 0 <= k, k < toz(xs.n)), m(k) == R(xs.get(k)))))
        return [(st, eng.new_list(st, Seq(xs.n, lambda i: m(toz(i)))))]
    P.eng.contracts[D + "mutate"] = h


def particle(P, nm, n, lo, hi):
    f, xs = inside(P, nm, n, lo, hi)
    sp = P.fn1("SPD" + nm, z3.IntSort(), z3.RealSort())
    return f, xs, P.obj("algorithms.OMOPSO.OMOPSO:Individual", dict(value=xs, speed=P.lst(Seq(n, lambda i: sp(toz(i)))), best_val=None, crowd_val=0, objectives=P.lst(Seq.lit([]))))


@proof("C04", "a swarm move keeps every particle in the box, any dimension", "algorithms.OMOPSO.OMOPSO:OMOPSO.move", bounded="swarm of 2 particles, any dimension")
def swarm(P):
    n, lo, hi, dims = box(P)
    f, xs, p = particle(P, "X", n, lo, hi)
    g, ys, q = particle(P, "Y", n, lo, hi)
    o = P.obj("algorithms.OMOPSO.OMOPSO:OMOPSO", dict(dims=dims, individuals=P.lst(Seq.lit([p, q]))))
    for s, v in P.call(P.method(o, "move"), [o]):
        in_box(P, s, fld(P, p, "value", s), n, lo, hi, "first particle: ")
        in_box(P, s, fld(P, q, "value", s), n, lo, hi, "second particle: ")


def mut_op(P, cls, fields):
    n, lo, hi, dims = box(P)
    f, xs, p = particle(P, "X", n, lo, hi)
    rate = P.real("rate")
    o = P.obj("algorithms.OMOPSO.OMOPSO:" + cls, dict(dims=dims, mutation_probability=rate, **fields))
    for s, v in P.call(P.method(o, "__call__"), [o, p]):
        in_box(P, s, fld(P, p, "value", s), n, lo, hi)
        r = P.seq(fld(P, p, "value", s), s)
        P.ensure(s, "probability zero changes nothing", z3.Implies(rate <= 0, toz(forall(n, lambda k: R(r.get(k)) == f(k)))))


@proof("C04", "uniform swarm mutation stays in the box", "algorithms.OMOPSO.OMOPSO:Mutation.__call__, UniformMutation.do_mutation")
def unimut(P):
    mut_op(P, "UniformMutation", dict(mutation_perturbation=P.real("pert")))


@proof("C04", "non-uniform swarm mutation stays in the box", "algorithms.OMOPSO.OMOPSO:Mutation.__call__, NonUniformMutation.do_mutation")
def nonunimut(P):
    pr, pt = P.real("progress"), P.real("pert")
    P.assume(z3.And(pr >= 0, pr <= 1, pt >= 0))
    mut_op(P, "NonUniformMutation", dict(mutation_perturbation=pt, evolution_progress=pr))


# ---- NSGA-III's own operators, on individuals
N3 = "algorithms.NSGAIII.NSGAIII:"


def indiv(P, nm, n, lo, hi, m):
    f, xs = inside(P, nm, n, lo, hi)
    o = P.fn1(nm + "OBJ", z3.IntSort(), z3.RealSort())
    objs = P.lst(Seq(m, lambda i: o(toz(i))))
    return f, xs, o, objs, P.obj(N3 + "Individual", dict(v=xs, objectives=objs))


@proof(("C04", "C08"), "NSGA-III mutation stays in the box and forgets the values of what it changes", N3 + "polynomial_mutation")
def n3_mut(P):
    n, lo, hi, dims = box(P)
    f, xs = inside(P, "X", n, lo, hi)
    own = P.int("values of X")
    ind = P.obj(N3 + "Individual", dict(v=xs, objectives=Tok(toz(own))))
    rate, eta = P.real("rate"), P.real("eta")
    P.assume(eta >= 0)
    body = lambda s: s.heap[ind.addr].fields
    vec = lambda s: P.seq(body(s)["v"], s)

    def kept(s):
        ob = Opt.of(body(s)["objectives"])
        return z3.BoolVal(True) if ob.val is None else \
            z3.Or(toz(ob.isnone), z3.And(ob.val.t == toz(own), forall(n, lambda k: R(vec(s).get(k)) == f(k))))
    P.eng.loop_inv = lambda eng, st: [lambda s, k: toz(vec(s).n) == n,
                                      lambda s, k: forall(n, lambda j: z3.And(lo(j) <= R(vec(s).get(j)), R(vec(s).get(j)) <= hi(j))),
                                      lambda s, k: kept(s),
                                      lambda s, k: z3.Implies(rate <= 0, forall(n, lambda j: R(vec(s).get(j)) == f(j)))]
    P.eng.inv_for = True
    for s, _ in P.call(N3 + "polynomial_mutation", [ind, dims, rate, eta]):
        in_box(P, s, body(s)["v"], n, lo, hi)
        P.ensure(s, "objectives still known only for the unchanged vector", kept(s))
        P.ensure(s, "rate zero changes nothing", z3.Implies(rate <= 0, toz(forall(n, lambda k: R(vec(s).get(k)) == f(k)))))


@proof(("C04", "C08"), "NSGA-III crossover stays in the box, and copied values belong to the copied vector", N3 + "simulated_binary_crossover")
def n3_sbx(P):
    n, lo, hi, dims = box(P)
    m = P.int("m", 1)
    f, xs, of, fobjs, a = indiv(P, "X", n, lo, hi, m)
    g, ys, og, gobjs, b = indiv(P, "Y", n, lo, hi, m)
    rate, eta = P.real("rate"), P.real("eta")
    P.assume(eta >= 0)

    def child(s, nm):
        c = s.frames[s.cur][nm]
        return P.seq(s.heap[c.addr].fields["v"], s)

    def cands(eng, st):
        kids = [nm for nm, v in st.frames[st.cur].items() if isinstance(v, ObjRef) and v not in (a, b) and "v" in getattr(st.heap[v.addr], "fields", {})]
        return [lambda s, k, nm=nm: toz(child(s, nm).n) == n for nm in kids] + \
            [lambda s, k, nm=nm: forall(n, lambda j: z3.And(lo(j) <= R(child(s, nm).get(j)), R(child(s, nm).get(j)) <= hi(j))) for nm in kids]
    P.eng.loop_inv = cands
    P.eng.inv_for = True
    for s, r in P.call(N3 + "simulated_binary_crossover", [a, b, dims, rate, eta]):
        for c, nm, pf, po in zip(r, ("first", "second"), (f, g), (of, og)):
            h = s.heap[c.addr].fields
            in_box(P, s, h["v"], n, lo, hi, nm + " child: ")
            sq = P.seq(h["v"], s)
            ob = Opt.of(h["objectives"])
            if ob.val is not None:
                osq = ob.val if isinstance(ob.val, Seq) else P.seq(ob.val, s)
                P.ensure(s, nm + " child: known objectives are those of the same vector",
                         z3.Or(toz(ob.isnone), z3.And(forall(n, lambda k: R(sq.get(k)) == pf(k)), toz(osq.n) == m, forall(m, lambda k: R(osq.get(k)) == po(k)))))
            P.ensure(s, nm + " child: rate zero reproduces the parent", z3.Implies(rate <= 0, toz(forall(n, lambda k: R(sq.get(k)) == pf(k)))))
            P.ensure(s, nm + " child: a new list", h["v"] not in (xs, ys))
        unchanged(P, s, xs, f, n, "first parent")
        unchanged(P, s, ys, g, n, "second parent")


# ---- jumping genes
J = "algorithms.JGBL.JGBL:JGBL."


def jgbl(P):
    n, lo, hi, dims = box(P)
    pct = P.real("percentage")
    P.assume(z3.And(pct >= 0, pct <= 1))
    j = P.obj("algorithms.JGBL.JGBL:JGBL", dict(dims=dims, jumping_percentage=pct))
    return n, lo, hi, dims, pct, j


@proof("C04", "jumping genes: decoding puts every value inside its bounds", J + "decode_ratio")
def jg_decode(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    r = P.fn1("RATIO", z3.IntSort(), z3.RealSort())
    for s, v in P.call(P.method(j, "decode_ratio"), [j, P.lst(Seq(n, lambda i: r(toz(i))))]):
        in_box(P, s, v, n, lo, hi)


@proof("C04", "jumping genes: encoding is undone by decoding", J + "convert_to_ratio, " + J + "decode_ratio")
def jg_round(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    f, xs = inside(P, "X", n, lo, hi)
    for s, v in P.call(P.method(j, "convert_to_ratio"), [j, xs]):
        rv = P.seq(v, s)
        P.ensure(s, "ratios lie between zero and one", z3.And(toz(rv.n) == n, forall(n, lambda k: z3.And(R(rv.get(k)) >= 0, R(rv.get(k)) <= 1))))
        unchanged(P, s, xs, f, n, "the encoded vector")
        for s2, w in P.call(P.method(j, "decode_ratio"), [j, v], st=s):
            wv = P.seq(w, s2)
            P.ensure(s2, "decoding gives the vector back", z3.And(toz(wv.n) == n, forall(n, lambda k: R(wv.get(k)) == f(k))))


@proof("C04", "jumping genes: cutting removes as many genes as were listed", J + "multi_delete")
def jg_delete(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    r, idx = P.fn1("RATIO", z3.IntSort(), z3.RealSort()), P.fn1("POS", z3.IntSort(), z3.IntSort())
    k = P.int("k", 0)
    P.assume(k <= n)
    a, b = z3.Ints("a!d b!d")
    P.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < k), z3.And(a <= idx(a), idx(a) < n)), patterns=[idx(a)]))
    P.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < k), idx(a) + (b - a) <= idx(b)), patterns=[z3.MultiPattern(idx(a), idx(b))]))
    # strictly ascending positions below n: the position listed at a leaves room for those after it
    P.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < k), idx(a) + (k - 1 - a) < n), patterns=[idx(a)]))
    lst = P.lst(Seq(n, lambda i: r(toz(i))))
    P.eng.loop_inv = lambda eng, st: [lambda s, i: toz(P.seq(lst, s).n) == n - toz(i)]
    P.eng.inv_for = True
    for s, v in P.call(P.method(j, "multi_delete"), [j, lst, P.lst(Seq(k, lambda i: idx(toz(i))))]):
        P.ensure(s, "as many genes fewer as were listed", toz(P.seq(lst, s).n) == n - k)


def ratio_contracts(P, n, lo, hi, pct):
    sizes = []

    def prepare(e, s, a, kw, node):
        sq = e.seq_of(a[1], s)
        P.ensure(s, "a whole vector is prepared", toz(sq.n) == n)
        if not sizes:
            k = e.fresh("cut", z3.IntSort())
            sizes.append(k)
            P.fact(z3.And(0 <= k, k <= n))
        k = sizes[0]
        ra, tr = e.fresh_fun("ratio", 1, z3.RealSort()), e.fresh_fun("transposon", 1, z3.RealSort())
        ps = e.fresh_fun("positions", 1, z3.IntSort())
        return [(s, (e.new_list(s, Seq(n, lambda i: ra(toz(i)))), e.new_list(s, Seq(k, lambda i: tr(toz(i)))), e.new_list(s, Seq(k, lambda i: ps(toz(i))))))]

    def delete(e, s, a, kw, node):
        ref = a[1]
        ln, ix = e.seq_of(ref, s).n, e.seq_of(a[2], s).n
        P.ensure(s, "no more genes are cut than there are", toz(ix) <= toz(ln))
        f = e.fresh_fun("left", 1, z3.RealSort())
        s.heap[ref.addr] = HeapList(Seq(toz(ln) - toz(ix), lambda i: f(toz(i))))
        return [(s, ref)]
    P.eng.contracts[J + "prepare_transposon"] = prepare
    P.eng.contracts[J + "multi_delete"] = delete
    return sizes


@proof("C04", "jumping genes: cut and paste keeps the length and the box", J + "cut_and_paste, " + J + "decode_ratio")
def jg_cut(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    f, xs = inside(P, "X", n, lo, hi)
    g, ys = inside(P, "Y", n, lo, hi)
    ratio_contracts(P, n, lo, hi, pct)
    for s, v in P.call(P.method(j, "cut_and_paste"), [j, xs, ys]):
        for w, nm in zip(v, ("first", "second")):
            in_box(P, s, w, n, lo, hi, nm + " result: ")
        unchanged(P, s, xs, f, n, "first parent")
        unchanged(P, s, ys, g, n, "second parent")


@proof("C04", "jumping genes: copy and paste keeps the length and the box", J + "copy_and_paste, " + J + "paste, " + J + "decode_ratio")
def jg_copy(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    f, xs = inside(P, "X", n, lo, hi)
    g, ys = inside(P, "Y", n, lo, hi)
    ratio_contracts(P, n, lo, hi, pct)

    def cands(eng, st):
        out = []
        loc = {nm: v for nm, v in st.frames[st.cur].items() if not nm.startswith("__")}
        lens = [toz(P.seq(x, st).n) for x in loc.values() if isinstance(x, ListRef)]
        for x in loc.values():
            if isinstance(x, ListRef):
                out.append(lambda s, k, x=x, ln=toz(P.seq(x, st).n): toz(P.seq(x, s).n) == ln)
        for nm, v in loc.items():
            if is_num(v) and not is_bool(v) and is_int(num(v)):
                out.append(lambda s, k, nm=nm, v=v: toz(num(s.frames[s.cur][nm])) == toz(num(v)) + toz(k))
                for ln in lens:
                    out.append(lambda s, k, v=v, ln=ln: z3.And(0 <= toz(num(v)) + toz(k), toz(num(v)) + toz(k) < ln))
        return out
    P.eng.loop_inv, P.eng.inv_for = cands, True
    for s, v in P.call(P.method(j, "copy_and_paste"), [j, xs, ys]):
        for w, nm in zip(v, ("first", "second")):
            in_box(P, s, w, n, lo, hi, nm + " result: ")
        unchanged(P, s, xs, f, n, "first parent")
        unchanged(P, s, ys, g, n, "second parent")


@proof("C04", "jumping genes: the genes to jump are distinct positions in order, and their values", J + "prepare_transposon, " + J + "convert_to_ratio")
def jg_prepare(P):
    n, lo, hi, dims, pct, j = jgbl(P)
    f, xs = inside(P, "X", n, lo, hi)
    for s, v in P.call(P.method(j, "prepare_transposon"), [j, xs]):
        ra, tr, ps = [P.seq(x, s) for x in v]
        P.ensure(s, "one ratio per variable", toz(ra.n) == n)
        P.ensure(s, "as many genes as positions", toz(tr.n) == toz(ps.n))
        P.ensure(s, "the requested share of the genes, not more than there are", z3.And(toz(ps.n) == z3.ToInt(pct * n), toz(ps.n) <= n))
        a, b = z3.Ints("a!p b!p")
        P.ensure(s, "positions are distinct, ascending and valid",
                 z3.And(forall(toz(ps.n), lambda k: z3.And(0 <= toz(ps.get(k)), toz(ps.get(k)) < n)),
                        z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < toz(ps.n)), toz(ps.get(a)) < toz(ps.get(b))))))
        P.ensure(s, "the genes are the values at those positions", forall(toz(ps.n), lambda k: R(tr.get(k)) == R(ra.get(toz(ps.get(k))))))
        unchanged(P, s, xs, f, n, "the vector")
