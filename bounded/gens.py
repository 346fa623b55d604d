"""input generators and independent oracles shared by the bounded checks"""
import math, itertools, random, copy


def vec(rng, d, style=None):
    style = style or rng.choice(["int", "int", "half", "float", "tiny", "neg"])
    if style == "int":
        return [rng.randint(0, 3) for _ in range(d)]
    if style == "half":
        return [rng.choice([0.0, 0.5, 1.0, 1.5]) for _ in range(d)]
    if style == "neg":
        return [rng.choice([-2.0, -1.0, 0.0, 1.0, 2.5]) for _ in range(d)]
    if style == "tiny":
        return [rng.choice([0.0, 1e-12, 2e-12, 1.0, 1.0 + 2.0 ** -52, 1e9]) for _ in range(d)]
    return [rng.uniform(-1, 2) for _ in range(d)]


def points(rng, n, d, style=None, dup=True):
    style = style or rng.choice(["int", "int", "half", "float", "tiny", "neg"])
    ps = [vec(rng, d, style) for _ in range(n)]
    if dup and n > 1 and rng.random() < 0.4:
        ps[rng.randrange(n)] = list(ps[rng.randrange(n)])
    return ps


def front2(rng, n):
    """mutually non-dominated 2-d points"""
    xs = sorted(rng.uniform(0, 1) for _ in range(n))
    ys = sorted((rng.uniform(0, 1) for _ in range(n)), reverse=True)
    return [list(p) for p in zip(xs, ys)]


def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def fronts(fs):
    """canonical Pareto fronts: list of sets of indices"""
    left = set(range(len(fs)))
    out = []
    while left:
        f = {i for i in left if not any(dom(fs[j], fs[i]) for j in left)}
        out.append(f)
        left -= f
    return out


def nondom(ps):
    return [p for p in ps if not any(dom(q, p) for q in ps)]


def multiset(xs):
    d = {}
    for x in xs:
        k = tuple(x)
        d[k] = d.get(k, 0) + 1
    return d


def close(a, b, rel=1e-9, abs_=1e-12):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def dims(rng, d):
    out = []
    for _ in range(d):
        k = rng.randrange(5)
        if k == 0:
            out.append((0, 1))
        elif k == 1:
            out.append((-5, 5))
        elif k == 2:
            lo = rng.uniform(-3, 3)
            out.append((lo, lo + rng.uniform(0.01, 4)))
        elif k == 3:
            out.append((-2.0, -1.0))
        else:
            out.append((10.0, 10.5))
    return out


def inbox(rng, ds):
    out = []
    for lo, hi in ds:
        k = rng.randrange(6)
        out.append(float(lo) if k == 0 else float(hi) if k == 1 else rng.uniform(lo, hi))
    return out


def within(v, ds):
    return len(v) == len(ds) and all(lo <= x <= hi for x, (lo, hi) in zip(v, ds))


class Adv(random.Random):
    """random source that often gives extreme draws"""

    def __init__(self, seed, extreme=0.3):
        super().__init__(seed)
        self.extreme = extreme

    def draw(self):
        if super().random() < self.extreme:
            return [0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53, 0.5 + 2.0 ** -53, 0.25][int(super().random() * 6)]
        return super().random()


class adversarial:
    """random.random / uniform / gauss give extreme draws now and then"""

    def __init__(self, seed, extreme=0.3):
        self.a = Adv(seed, extreme)

    def __enter__(self):
        self.saved = {k: getattr(random, k) for k in ("random", "uniform", "gauss")}
        a = self.a
        random.random = a.draw
        random.uniform = lambda lo, hi: lo + (hi - lo) * a.draw()
        g = self.saved["gauss"]
        random.gauss = lambda mu, s: g(mu, s) if a.draw() > 0.2 else mu + s * (40 if a.draw() > 0.5 else -40)
        return self

    def __exit__(self, *x):
        for k, v in self.saved.items():
            setattr(random, k, v)


class Counter:
    """objective function that records its calls"""

    def __init__(self, f):
        self.f = f
        self.calls = []

    def __call__(self, x):
        self.calls.append(tuple(x))
        return self.f(x)


def objectives(kind, d):
    """lists of objective functions over d variables"""
    if kind == 0:
        return [lambda x: sum(x), lambda x: sum((v - 1) ** 2 for v in x)]
    if kind == 1:
        return [lambda x: x[0], lambda x: 1 - x[0] + sum(v * v for v in x[1:])]
    if kind == 2:
        return [lambda x: sum(v * v for v in x), lambda x: sum((v - 2) ** 2 for v in x), lambda x: abs(x[0])]
    if kind == 3:
        return [lambda x: round(sum(x), 1), lambda x: round(-x[0], 1)]
    return [lambda x: math.floor(sum(x)), lambda x: -math.floor(x[-1])]
