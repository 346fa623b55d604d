"""C16: benchmark problems implement their published formulas and true reference fronts"""
import importlib
from gens import *

PI = math.pi


def zdt(n, g, h, f1=lambda x: x):
    return [lambda x: f1(x[0]), lambda x: g(x[1:]) * h(f1(x[0]), g(x[1:]))]


def J(n, k, r, lo):
    return [j for j in range(lo, n + 1) if j % k == r]


def uf2obj(n, y, term, head1, head2, extra=lambda x: 0.0):
    odd, even = J(n, 2, 1, 2), J(n, 2, 0, 2)

    def f(x, js, head):
        return head(x[0]) + extra(x[0]) + term([y(x, j, js is odd) for j in js], js)
    return [lambda x: f(x, odd, head1), lambda x: f(x, even, head2)]


def uf3obj(n, term, heads):
    j1, j2, j3 = J(n, 3, 1, 3), J(n, 3, 2, 3), J(n, 3, 0, 3)
    y = lambda x, j: x[j - 1] - 2 * x[1] * math.sin(2 * PI * x[0] + j * PI / n)
    mk = lambda h, js: (lambda x: h(x) + term([y(x, j) for j in js], js))
    return [mk(h, js) for h, js in zip(heads, (j1, j2, j3))]


def sq(ys, js):
    return 2.0 / len(js) * sum(t * t for t in ys)


def rastr(ys, js):
    p = 1.0
    for t, j in zip(ys, js):
        p *= math.cos(20.0 * t * PI / math.sqrt(j))
    return 2.0 / len(js) * (4 * sum(t * t for t in ys) - 2 * p + 2)


def avg2(h):
    return lambda ys, js: 2.0 / len(js) * sum(h(t) for t in ys)


def ysin(n):
    return lambda x, j, odd: x[j - 1] - math.sin(6 * PI * x[0] + j * PI / n)


def yuf2(n):
    def y(x, j, odd):
        a = 0.3 * x[0] * x[0] * math.cos(24 * PI * x[0] + 4 * j * PI / n) + 0.6 * x[0]
        t = 6 * PI * x[0] + j * PI / n
        return x[j - 1] - a * (math.cos(t) if odd else math.sin(t))
    return y


root = lambda x: 1 - math.sqrt(x)
ident = lambda x: x
SPHERE = [lambda x: math.cos(x[0] * PI / 2) * math.cos(x[1] * PI / 2), lambda x: math.cos(x[0] * PI / 2) * math.sin(x[1] * PI / 2), lambda x: math.sin(x[0] * PI / 2)]


def bump(x):
    return max(0.0, 1.1 * (1 - 4 * (2 * x[0] - 1) ** 2))


DEF = {
    "ZDT1": zdt(30, lambda r: 1 + 9.0 * sum(r) / 29, lambda f, g: 1 - math.sqrt(f / g)),
    "ZDT2": zdt(30, lambda r: 1 + 9.0 * sum(r) / 29, lambda f, g: 1 - (f / g) ** 2),
    "ZDT3": zdt(30, lambda r: 1 + 9.0 * sum(r) / 29, lambda f, g: 1 - math.sqrt(f / g) - f / g * math.sin(10 * PI * f)),
    "ZDT4": zdt(10, lambda r: 1 + 10.0 * len(r) + sum(v * v - 10 * math.cos(4 * PI * v) for v in r), lambda f, g: 1 - math.sqrt(f / g)),
    "ZDT6": zdt(10, lambda r: 1 + 9.0 * (sum(r) / 9.0) ** 0.25, lambda f, g: 1 - (f / g) ** 2, lambda x: 1 - math.exp(-4 * x) * math.sin(6 * PI * x) ** 6),
    "UF1": uf2obj(30, ysin(30), sq, ident, root),
    "UF2": uf2obj(30, yuf2(30), sq, ident, root),
    "UF3": uf2obj(30, lambda x, j, odd: x[j - 1] - x[0] ** (0.5 * (1 + 3.0 * (j - 2) / 28)), rastr, ident, root),
    "UF4": uf2obj(30, ysin(30), avg2(lambda t: abs(t) / (1 + math.exp(2 * abs(t)))), ident, lambda x: 1 - x * x),
    "UF5": uf2obj(10, ysin(10), avg2(lambda t: 2 * t * t - math.cos(4 * PI * t) + 1), ident, lambda x: 1 - x, lambda x: (1 / 20.0 + 0.1) * abs(math.sin(20 * PI * x))),
    "UF6": uf2obj(30, ysin(30), rastr, ident, lambda x: 1 - x, lambda x: max(0.0, 2 * (1 / 60.0 + 0.1) * math.sin(60 * PI * x))),
    "UF7": uf2obj(30, ysin(30), sq, lambda x: x ** 0.2, lambda x: 1 - x ** 0.2),
    "UF8": uf3obj(30, sq, SPHERE),
    "UF9": uf3obj(30, sq, [lambda x: 0.5 * (bump(x) + 2 * x[0]) * x[1], lambda x: 0.5 * (bump(x) - 2 * x[0] + 2) * x[1], lambda x: 1 - x[1]]),
    "UF10": uf3obj(30, avg2(lambda t: 4 * t * t - math.cos(8 * PI * t) + 1), SPHERE),
    "kursawe": [lambda x: sum(-10 * math.exp(-0.2 * math.sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(len(x) - 1)), lambda x: sum(abs(v) ** 0.8 + 5 * math.sin(v ** 3) for v in x)],
    "ackley": [lambda x: -20 * math.exp(-0.2 * math.sqrt(0.5 * (x[0] ** 2 + x[1] ** 2))) - math.exp(0.5 * (math.cos(2 * PI * x[0]) + math.cos(2 * PI * x[1]))) + math.e + 20] * 2,
    "EWA1": [lambda x: math.sin(50 * x[0]) * math.cos(50 * x[1]) + 1, lambda x: (x[0] - 0.5) ** 2 * (x[1] - 0.5) ** 2],
    "EWA2": [lambda x: math.sin(50 * x[0]) * math.cos(30 * x[1]) + 1, lambda x: math.sin(30 * x[0]) * math.cos(50 * x[1]) + 1],
}
DIMS = {
    "ZDT1": [(0, 1)] * 30, "ZDT2": [(0, 1)] * 30, "ZDT3": [(0, 1)] * 30, "ZDT4": [(0, 1)] + [(-5, 5)] * 9, "ZDT6": [(0, 1)] * 10,
    "UF1": [(0, 1)] + [(-1, 1)] * 29, "UF2": [(0, 1)] + [(-1, 1)] * 29, "UF3": [(0, 1)] * 30, "UF4": [(0, 1)] + [(-2, 2)] * 29, "UF5": [(0, 1)] + [(-1, 1)] * 9,
    "UF6": [(0, 1)] + [(-1, 1)] * 29, "UF7": [(0, 1)] + [(-1, 1)] * 29, "UF8": [(0, 1)] * 2 + [(-2, 2)] * 28, "UF9": [(0, 1)] * 2 + [(-2, 2)] * 28, "UF10": [(0, 1)] * 2 + [(-2, 2)] * 28,
    "kursawe": [(-5, 5)] * 3, "ackley": [(-1.5, 1.5)] * 2, "EWA1": [(0, 1)] * 2, "EWA2": [(0, 1)] * 2,
}
Z3 = [(0.0, 0.0830015349), (0.1822287280, 0.2577623634), (0.4093136748, 0.4538821041), (0.6183967944, 0.6525117038), (0.8233317983, 0.8518328654)]


def eq(a, b, t=1e-9):
    return abs(a - b) <= t


def on_sphere(p):
    return eq(sum(v * v for v in p), 1, 1e-9) and min(p) >= -1e-9


FRONT = {
    "ZDT1": lambda p: eq(p[1], 1 - math.sqrt(p[0])) and 0 <= p[0] <= 1, "ZDT2": lambda p: eq(p[1], 1 - p[0] ** 2) and 0 <= p[0] <= 1,
    "ZDT3": lambda p: eq(p[1], 1 - math.sqrt(p[0]) - p[0] * math.sin(10 * PI * p[0])) and any(a - 1e-9 <= p[0] <= b + 1e-9 for a, b in Z3),
    "ZDT4": lambda p: eq(p[1], 1 - math.sqrt(p[0])) and 0 <= p[0] <= 1, "ZDT6": lambda p: eq(p[1], 1 - p[0] ** 2) and 0.2807753191 - 1e-9 <= p[0] <= 1,
    "UF1": lambda p: eq(p[1], 1 - math.sqrt(p[0])) and 0 <= p[0] <= 1, "UF2": lambda p: eq(p[1], 1 - math.sqrt(p[0])) and 0 <= p[0] <= 1, "UF3": lambda p: eq(p[1], 1 - math.sqrt(p[0])) and 0 <= p[0] <= 1,
    "UF4": lambda p: eq(p[1], 1 - p[0] ** 2) and 0 <= p[0] <= 1,
    "UF5": lambda p: eq(p[0], round(p[0] * 20) / 20.0) and eq(p[1], 1 - p[0]) and -1e-9 <= p[0] <= 1 + 1e-9,
    "UF6": lambda p: eq(p[1], 1 - p[0]) and (eq(p[0], 0) or any((2 * i - 1) / 60.0 - 1e-9 <= p[0] <= 2 * i / 60.0 + 1e-9 for i in range(1, 31))),
    "UF7": lambda p: eq(p[1], 1 - p[0]) and 0 <= p[0] <= 1,
    "UF8": on_sphere, "UF10": on_sphere,
    "UF9": lambda p: eq(sum(p), 1) and min(p) >= -1e-9 and (p[0] <= 0.25 * (1 - p[2]) + 1e-9 or p[0] >= 0.75 * (1 - p[2]) - 1e-9),
}


def module(B, name):
    return B.get("problems.%s.problem:" % name)


def close_to(a, b):
    return abs(a - b) <= 1e-8 * max(1.0, abs(b))


def c_formulas(B):
    names = sorted(DEF)
    mods = {}
    for name in names:
        m = module(B, name)
        mods[name] = m
        B.case(name)
        B.expect([tuple(d) for d in m.dims] == DIMS[name], name, "bounds %s" % (m.dims,))
        B.expect(len(m.fitnesses) == len(DEF[name]), name, "%d objectives" % len(m.fitnesses))
    for i in B.loop(150, 4000):
        for name in names:
            m, ds = mods[name], DIMS[name]
            if len(m.fitnesses) != len(DEF[name]):
                continue
            rng = B.rng
            k = rng.randrange(4)
            x = inbox(rng, ds) if k == 0 else [rng.uniform(a, b) for a, b in ds]
            if k == 1:
                x = [float(ds[0][0] if rng.random() < 0.5 else ds[0][1])] + x[1:]
            if k == 2 and name.startswith(("ZDT", "UF")):
                x = x[:1] + [0.0] * (len(x) - 1)
            x = tuple(x) if rng.random() < 0.3 else x
            B.case((name, x))
            for f, d in zip(m.fitnesses, DEF[name]):
                ok, v = B.run((name, x), f, x)
                if ok:
                    B.expect(close_to(v, d(x)), (name, x, m.fitnesses.index(f)), "value %r, by the definition %r" % (v, d(x)))


def c_fronts(B):
    for name in sorted(FRONT):
        m = module(B, name)
        pf = [list(p) for p in m.pareto_front]
        B.case((name, len(pf)))
        B.expect(len(pf) > 0, name, "empty reference front")
        for p in pf:
            if not B.expect(len(p) == len(DEF[name]) and FRONT[name](p), (name, p), "not on the optimal front"):
                break
        bad = next(((a, b) for a in pf for b in pf if dom(a, b) and not all(close_to(x, y) for x, y in zip(a, b))), None)
        B.expect(bad is None, (name, bad), "reference points dominate each other")


CHECKS = [("fronts", c_fronts), ("formulas", c_formulas)]
