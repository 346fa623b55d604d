"""C16: every objective function is symbolically executed on an arbitrary point of its box and equals the published formula"""
from fractions import Fraction as Q
from .lib import *
from pydv.builtins_model import call_builtin

PI = z3.Real("PI")


class F:
    """the functions the formulas are written with, in the state of one path"""

    def __init__(self, P, st):
        self.P, self.st = P, st

    def f(self, n, *a):
        r = call_builtin(self.P.eng, n, list(a), {}, self.st, None)
        if isinstance(r, list):
            r = r[0][1]
        return R(r)

    def sin(self, x):
        return self.f("math.sin", x)

    def cos(self, x):
        return self.f("math.cos", x)

    def exp(self, x):
        return self.f("math.exp", x)

    def sqrt(self, x):
        return self.f("math.sqrt", x)

    def pow(self, x, y):
        return self.f("math.pow", x, y)


def q(a, b=1):
    return z3.RealVal("%d/%d" % (a, b))


def tot(xs):
    r = q(0)
    for x in xs:
        r = r + x
    return r


def mx0(x):
    return z3.If(x > 0, x, q(0))


def J(n, k, r, lo):
    return [j for j in range(lo, n + 1) if j % k == r]


# ---- distance terms
def sq(m, ys, js):
    return q(2, len(js)) * tot(t * t for t in ys)


def rastr(m, ys, js):
    p = q(1)
    for t, j in zip(ys, js):
        p = p * m.cos(20 * t * PI / m.sqrt(j))
    return q(2, len(js)) * (4 * tot(t * t for t in ys) - 2 * p + 2)


def avg2(h):
    return lambda m, ys, js: q(2, len(js)) * tot(h(m, t) for t in ys)


def two(n, y, term, h1, h2, extra=lambda m, x: q(0)):
    def mk(js, odd, head):
        return lambda m, x: head(m, x[0]) + extra(m, x[0]) + term(m, [y(m, x, j, odd) for j in js], js)
    return [mk(J(n, 2, 1, 2), True, h1), mk(J(n, 2, 0, 2), False, h2)]


def three(n, term, heads):
    y = lambda m, x, j: x[j - 1] - 2 * x[1] * m.sin(2 * PI * x[0] + q(j, n) * PI)
    mk = lambda h, js: (lambda m, x: h(m, x) + term(m, [y(m, x, j) for j in js], js))
    return [mk(h, js) for h, js in zip(heads, (J(n, 3, 1, 3), J(n, 3, 2, 3), J(n, 3, 0, 3)))]


def ysin(n):
    return lambda m, x, j, odd: x[j - 1] - m.sin(6 * PI * x[0] + q(j, n) * PI)


def yuf2(n):
    def y(m, x, j, odd):
        a = q(3, 10) * x[0] * x[0] * m.cos(24 * PI * x[0] + q(4 * j, n) * PI) + q(6, 10) * x[0]
        t = 6 * PI * x[0] + q(j, n) * PI
        return x[j - 1] - a * (m.cos(t) if odd else m.sin(t))
    return y


def zdt(g, h, f1=lambda m, x: x):
    return [lambda m, x: f1(m, x[0]), lambda m, x: g(m, x[1:]) * h(m, f1(m, x[0]), g(m, x[1:]))]


g1 = lambda m, r: 1 + q(9, 29) * tot(r)
idt = lambda m, x: x
root = lambda m, x: 1 - m.sqrt(x)
SPH = [lambda m, x: m.cos(x[0] * PI / 2) * m.cos(x[1] * PI / 2), lambda m, x: m.cos(x[0] * PI / 2) * m.sin(x[1] * PI / 2), lambda m, x: m.sin(x[0] * PI / 2)]
bump = lambda x: mx0(q(11, 10) * (1 - 4 * (2 * x[0] - 1) * (2 * x[0] - 1)))
ab = lambda x: z3.If(x >= 0, x, -x)
E_ = z3.Real("EULER")


def kur_a(m, x):
    return tot(-10 * m.exp(q(-2, 10) * m.sqrt(x[i] * x[i] + x[i + 1] * x[i + 1])) for i in range(len(x) - 1))


def ack(m, x):
    return -20 * m.exp(q(-2, 10) * m.sqrt(q(1, 2) * (x[0] * x[0] + x[1] * x[1]))) - m.exp(q(1, 2) * (m.cos(2 * PI * x[0]) + m.cos(2 * PI * x[1]))) + E_ + 20


U = [(0, 1)]
DEF = {
    "ZDT1": (U * 30, zdt(g1, lambda m, f, g: 1 - m.sqrt(ab(f / g)))),
    "ZDT2": (U * 30, zdt(g1, lambda m, f, g: 1 - (f / g) * (f / g))),
    "ZDT3": (U * 30, zdt(g1, lambda m, f, g: 1 - m.sqrt(ab(f / g)) - f / g * m.sin(10 * PI * f))),
    "ZDT4": (U + [(-5, 5)] * 9, zdt(lambda m, r: 1 + 10 * len(r) + tot(v * v - 10 * m.cos(4 * PI * v) for v in r), lambda m, f, g: 1 - m.sqrt(ab(f / g)))),
    "ZDT6": (U * 10, zdt(lambda m, r: 1 + 9 * m.pow(tot(r) / 9, q(1, 4)), lambda m, f, g: 1 - (f / g) * (f / g),
                         lambda m, x: 1 - m.exp(-4 * x) * m.f("pow", m.sin(6 * PI * x), 6))),
    "UF1": (U + [(-1, 1)] * 29, two(30, ysin(30), sq, idt, root)),
    "UF2": (U + [(-1, 1)] * 29, two(30, yuf2(30), sq, idt, root)),
    "UF3": (U * 30, two(30, lambda m, x, j, odd: x[j - 1] - m.pow(x[0], Q(1, 2) * (1 + Q(3 * (j - 2), 28))), rastr, idt, root)),
    "UF4": (U + [(-2, 2)] * 29, two(30, ysin(30), avg2(lambda m, t: ab(t) / (1 + m.exp(2 * ab(t)))), idt, lambda m, x: 1 - x * x)),
    "UF5": (U + [(-1, 1)] * 9, two(10, ysin(10), avg2(lambda m, t: 2 * t * t - m.cos(4 * PI * t) + 1), idt, lambda m, x: 1 - x,
                                  lambda m, x: (q(1, 20) + q(1, 10)) * ab(m.sin(20 * PI * x)))),
    "UF6": (U + [(-1, 1)] * 29, two(30, ysin(30), rastr, idt, lambda m, x: 1 - x, lambda m, x: mx0(2 * (q(1, 60) + q(1, 10)) * m.sin(60 * PI * x)))),
    "UF7": (U + [(-1, 1)] * 29, two(30, ysin(30), sq, lambda m, x: m.pow(x, Q(1, 5)), lambda m, x: 1 - m.pow(x, Q(1, 5)))),
    "UF8": (U * 2 + [(-2, 2)] * 28, three(30, sq, SPH)),
    "UF9": (U * 2 + [(-2, 2)] * 28, three(30, sq, [lambda m, x: q(1, 2) * (bump(x) + 2 * x[0]) * x[1], lambda m, x: q(1, 2) * (bump(x) - 2 * x[0] + 2) * x[1], lambda m, x: 1 - x[1]])),
    "UF10": (U * 2 + [(-2, 2)] * 28, three(30, avg2(lambda m, t: 4 * t * t - m.cos(8 * PI * t) + 1), SPH)),
    "kursawe": ([(-5, 5)] * 3, [kur_a, lambda m, x: tot(m.pow(ab(v), Q(4, 5)) + 5 * m.sin(v * v * v) for v in x)]),
    "ackley": ([(Q(-3, 2), Q(3, 2))] * 2, [ack, ack]),
    "EWA1": (U * 2, [lambda m, x: m.sin(50 * x[0]) * m.cos(50 * x[1]) + 1, lambda m, x: (x[0] - q(1, 2)) * (x[0] - q(1, 2)) * (x[1] - q(1, 2)) * (x[1] - q(1, 2))]),
    "EWA2": (U * 2, [lambda m, x: m.sin(50 * x[0]) * m.cos(30 * x[1]) + 1, lambda m, x: m.sin(30 * x[0]) * m.cos(50 * x[1]) + 1]),
}


def mk(name, dims, objs):
    mod = "problems.%s.problem:" % name

    @proof("C16", "%s: objectives and bounds are those of the definition" % name, mod + "fitnesses")
    def pr(P):
        n = len(dims)
        ds = P.seq(P.get(mod + "dims"), P.st)
        P.ensure(P.st, "number of variables", toz(ds.n) == n)
        for k in range(n):
            lo_hi = P.seq(ds.get(k), P.st)
            P.ensure(P.st, "bounds of variable %d" % k, z3.And(R(lo_hi.get(0)) == R(dims[k][0]), R(lo_hi.get(1)) == R(dims[k][1])))
        fs = P.seq(P.get(mod + "fitnesses"), P.st)
        P.ensure(P.st, "number of objectives", toz(fs.n) == len(objs))
        x = P.litvec("x", n)
        P.assume(z3.Real("PI") > 3)
        for k, (lo, hi) in enumerate(dims):
            P.assume(z3.And(x.get(k) >= R(lo), x.get(k) <= R(hi)))
        xs = [x.get(k) for k in range(n)]
        for i, d in enumerate(objs):
            for s, v in P.call(fs.get(i), [P.lst(x)], st=P.st.copy()):
                P.ensure(s, "objective %d" % (i + 1), R(v) == d(F(P, s), xs))
    return pr


for _n, (_d, _o) in DEF.items():
    mk(_n, _d, _o)


# ------------------------------------------------------------------ reference fronts
def parab(m, p):
    return p[1] == 1 - p[0] * p[0]


def rootc(m, p):
    return p[1] == 1 - m.sqrt(p[0])


def line(m, p):
    return p[1] == 1 - p[0]


unit = lambda p: z3.And(p[0] >= 0, p[0] <= 1)
ANY = lambda p: z3.BoolVal(True)
CURVES = {
    "ZDT1": (rootc, unit), "ZDT2": (parab, unit), "ZDT4": (rootc, unit), "ZDT6": (parab, ANY),
    "UF1": (rootc, unit), "UF2": (rootc, unit), "UF3": (rootc, unit), "UF4": (parab, unit),
    "UF5": (line, lambda p: z3.Or(*[p[0] == q(i, 20) for i in range(21)])),
    "UF6": (line, lambda p: z3.Or(p[0] == 0, *[z3.And(p[0] >= q(2 * i - 1, 60), p[0] <= q(2 * i, 60)) for i in range(1, 31)])),
    "UF7": (line, unit),
}


def front(name, curve, where):
    mod = "problems.%s.problem:" % name

    @proof("C16", "%s: every reference point lies on the optimal front" % name, mod + "pareto_front")
    def pr(P):
        fr = P.seq(P.get(mod + "pareto_front"), P.st)
        P.ensure(P.st, "the front is not empty", toz(fr.n) >= 1)
        if not isinstance(fr.n, int):
            raise Unsupported("front of symbolic size")
        m = F(P, P.st)
        for k in range(fr.n):
            p = P.seq(fr.get(k), P.st)
            pt = [R(p.get(0)), R(p.get(1))]
            P.ensure(P.st, "point %d on the curve" % k, curve(m, pt))
            P.ensure(P.st, "point %d in the optimal part" % k, where(pt))
        P.lemma = True
    return pr


for _n, (_c, _w) in CURVES.items():
    front(_n, _c, _w)


def front3(name, law, pos):
    mod = "problems.%s.problem:" % name

    @proof("C16", "%s: every reference point lies on the optimal front" % name, mod + "pareto_front")
    def pr(P):
        fr = P.seq(P.get(mod + "pareto_front"), P.st)
        P.ensure(P.st, "the front is not empty", toz(fr.n) >= 1)
        if not isinstance(fr.n, int):
            raise Unsupported("front of symbolic size")
        for k in range(fr.n):
            p = P.seq(fr.get(k), P.st)
            pt = [R(p.get(i)) for i in range(3)]
            P.ensure(P.st, "point %d on the surface" % k, law(pt))
            P.ensure(P.st, "point %d non-negative" % k, z3.And(*[c >= 0 for c in pt]))
            P.ensure(P.st, "point %d in the optimal part" % k, pos(pt))
        P.lemma = True
    return pr


sphere = lambda p: p[0] * p[0] + p[1] * p[1] + p[2] * p[2] == 1
plane = lambda p: p[0] + p[1] + p[2] == 1
front3("UF8", sphere, ANY)
front3("UF10", sphere, ANY)
front3("UF9", plane, lambda p: z3.Or(p[0] <= q(1, 4) * (1 - p[2]), z3.And(q(3, 4) * (1 - p[2]) <= p[0], p[0] <= 1 - p[2])))


@proof("C16", "points of the optimal curves and surfaces do not dominate each other", "problems:pareto_front")
def nondom(P):
    """lemma: together with membership this makes every reference front mutually non-dominated"""
    P.lemma = True
    a, b = [z3.Real("a%d" % i) for i in range(3)], [z3.Real("b%d" % i) for i in range(3)]
    for nm, law, n in (("root", lambda p: z3.And(p[0] >= 0, p[1] <= 1, (1 - p[1]) * (1 - p[1]) == p[0]), 2), ("parabola", lambda p: z3.And(p[0] >= 0, p[1] == 1 - p[0] * p[0]), 2),
                       ("line", lambda p: p[1] == 1 - p[0], 2), ("sphere", lambda p: z3.And(sphere(p), *[c >= 0 for c in p]), 3), ("plane", plane, 3)):
        dom = z3.And(z3.And(*[a[i] <= b[i] for i in range(n)]), z3.Or(*[a[i] < b[i] for i in range(n)]))
        P.ensure(P.st, nm, z3.Implies(z3.And(law(a), law(b)), z3.Not(dom)))
