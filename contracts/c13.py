from .lib import *

T = "algorithms.HGS.tools:"
W = 52                                    # stored mantissa bits of a double
P2 = z3.Function("POW2", z3.IntSort(), z3.RealSort())


def frac(d):
    """the stored mantissa as a number in [0,1)"""
    r = z3.RealVal(0)
    for i in range(W):
        r = r + z3.ToReal(toz(num(d[i]))) * z3.RealVal("1/%d" % 2 ** (i + 1))
    return r


def value(s, d, e):
    """IEEE double with sign bit s, stored mantissa bits d and unbiased exponent e (finite: e < 1024)"""
    mag = z3.If(e == -1023, P2(-1022) * frac(d), P2(e) * (1 + frac(d)))
    return z3.If(s == 1, -mag, mag)


def number(P, nm="x"):
    s, e = P.int("s_" + nm, 0, 1), P.int("e_" + nm, -1023, 1023)
    d = [P.int("%s_b%d" % (nm, i), 0, 1) for i in range(W)]
    x = P.real(nm)
    P.fact(x == value(s, d, e))
    P.fact(P2(-1022) > 0)
    P.fact(P2(e) > 0)
    return x, s, d, e


def use_floatextras(P, table):
    """trusted: floatextras.as_tuple gives (sign bit, the 52 stored mantissa bits, unbiased exponent), from_tuple is its inverse (IEEE double layout)"""
    P.eng.trusted.add("floatextras.as_tuple / from_tuple convert between a finite double and (sign, 52 mantissa bits, exponent) as documented")

    def as_tuple(eng, st, args, kw, node):
        for x, s, d, e in table:
            if z3.eq(toz(args[0]), x):
                return [(st, (s, Seq.lit(d), e))]
        raise Unsupported("as_tuple of a derived number")

    def from_tuple(eng, st, args, kw, node):
        s, d, e = args[0].items() if isinstance(args[0], Seq) else args[0]
        d = eng.seq_of(d, st)
        eng.oblige(st, "precondition of from_tuple: 52 digits", toz(d.n) == W)
        ds = [toz(num(d.get(i))) for i in range(W)]
        eng.oblige(st, "precondition of from_tuple: digits are bits", z3.And([z3.Or(b == 0, b == 1) for b in ds]))
        y = eng.fresh_real("y")
        table.append((y, s, ds, e))
        return [(st, y)]
    P.eng.contracts["lib:floatextras.as_tuple"] = as_tuple
    P.eng.contracts["lib:floatextras.from_tuple"] = from_tuple


@proof("C13", "trim keeps sign, exponent and the leading bits and clears the rest, every double and bit count", T + "trim_mantissa")
def trim(P):
    x, s, d, e = number(P)
    k = P.int("bits")
    P.assume(k >= 0)
    tab = [(x, s, d, e)]
    use_floatextras(P, tab)
    for st, v in P.call(T + "trim_mantissa", [x, k]):
        hit = [t for t in tab if z3.eq(t[0], toz(v))]
        y, s2, d2, e2 = hit[0]
        P.ensure(st, "sign kept", toz(num(s2)) == s)
        P.ensure(st, "exponent kept", toz(num(e2)) == e)
        P.ensure(st, "leading bits kept, the others cleared", z3.And([d2[i] == z3.If(k > i, d[i], 0) for i in range(W)]))


@proof("C13", "trim of a trimmed number changes nothing more", T + "trim_mantissa")
def trim2(P):
    x, s, d, e = number(P)
    k = P.int("bits")
    P.assume(k >= 0)
    tab = [(x, s, d, e)]
    use_floatextras(P, tab)
    for st, v in P.call(T + "trim_mantissa", [x, k]):
        for st2, v2 in P.call(T + "trim_mantissa", [v, k], st=st):
            a = [t for t in tab if z3.eq(t[0], toz(v))][0]
            b = [t for t in tab if z3.eq(t[0], toz(v2))][0]
            P.ensure(st2, "same sign, exponent and bits", z3.And(toz(num(a[1])) == toz(num(b[1])), toz(num(a[3])) == toz(num(b[3])), *[p == q for p, q in zip(a[2], b[2])]))


@proof("C13", "consequences: smaller magnitude, error below one unit of the kept precision, identity from 52 bits on", "lemma over the bit-level contract of trim_mantissa")
def lemma(P):
    P.lemma = True
    e = P.int("e")
    k = P.int("k", 0)
    d = [P.real("b%d" % i) for i in range(W)]          # more general than bits: any digits in [0,1]
    for b in d:
        P.assume(z3.And(b >= 0, b <= 1))
    kept = [z3.If(k > i, d[i], z3.RealVal(0)) for i in range(W)]
    fr = lambda ds: z3.Sum([b * z3.RealVal("1/%d" % 2 ** (i + 1)) for i, b in enumerate(ds)])
    F, G = fr(d), fr(kept)
    P.ensure(P.st, "0 <= kept mantissa <= mantissa < 1", z3.And(0 <= G, G <= F, F < 1))
    for i in range(W):
        P.ensure(P.st, "mantissa error below 2^-%d when %d bits are kept" % (i, i), z3.Implies(k == i, F - G < z3.RealVal("1/%d" % 2 ** i)))
    P.ensure(P.st, "nothing changes when the whole mantissa is kept", z3.Implies(k >= W, F == G))
    f, g, p, q = P.real("f"), P.real("g"), P.real("p"), P.real("q")
    hyp = z3.And(0 <= g, g <= f, f < 1, p > 0, q > 0)
    mag = lambda t: z3.If(e == -1023, q * t, p * (1 + t))
    P.ensure(P.st, "never larger in magnitude", z3.Implies(hyp, z3.And(mag(g) <= mag(f), mag(g) >= 0)))


@proof("C13", "a vector is reduced component by component, any length", T + "trim_vector")
def vec(P):
    n, k = P.int("n", 0), P.int("bits", 0)
    TR = P.fn1("TRIM", z3.RealSort(), z3.IntSort(), z3.RealSort())
    P.eng.contracts[T + "trim_mantissa"] = lambda eng, st, a, kw, node: [(st, TR(R(a[0]), toz(num(a[1]))))]
    xs = P.reals("X", n)
    for s, v in P.call(T + "trim_vector", [P.lst(xs), k]):
        r = P.seq(v, s)
        P.ensure(s, "length kept", toz(r.n) == n)
        P.ensure(s, "every component reduced to that precision", forall(n, lambda i: R(r.get(i)) == TR(toz(xs.get(i)), k)))
