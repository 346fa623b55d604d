"""C13: precision reduction clears low-order mantissa bits only (bit-level oracle)"""
import struct, sys
from gens import *


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def flt(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def oracle(x, k):
    k = max(0, min(52, k))
    return flt(bits(x) >> (52 - k) << (52 - k))


def numbers(rng):
    c = rng.randrange(9)
    if c == 0:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1.5, -0.75, 3.0, 0.1, -0.1, 1e-300, 1e300, sys.float_info.max, -sys.float_info.max, sys.float_info.min, 5e-324, -5e-324, 1.0 - 2 ** -53, 1.0 + 2 ** -52])
    if c == 1:
        return rng.uniform(-1, 1)
    if c == 2:
        return rng.uniform(-1e6, 1e6)
    if c == 3:
        return float(rng.randint(-1000, 1000))
    if c == 4:
        return flt(bits(1.0) + rng.getrandbits(52)) * rng.choice([1, -1])
    if c == 5:
        return flt(rng.getrandbits(52)) * rng.choice([1, -1])           # subnormal
    if c == 6:
        return flt((rng.getrandbits(1) << 63) | (rng.randrange(1, 2047) << 52) | rng.getrandbits(52))
    if c == 7:
        return flt((rng.randrange(1, 2047) << 52) | ((1 << 52) - 1))
    return rng.gauss(0, 10)


def fns(B):
    return [f for f in (B.opt("algorithms.HGS.tools:trim_mantissa"), B.opt("algorithms.HGS.classic.ClassicHGS:trim_mantissa")) if f]


def vfns(B):
    return [f for f in (B.opt("algorithms.HGS.tools:trim_vector"), B.opt("algorithms.HGS.classic.ClassicHGS:trim_vector")) if f]


def c_bits(B):
    fs = fns(B)
    for _ in B.loop(9000):
        x, k = numbers(B.rng), B.rng.choice([0, 1, 2, 4, 16, 51, 52, 53, 64, 100, B.rng.randrange(0, 60)])
        B.case((x, k))
        for f in fs:
            good, y = B.run((x, k), f, x, k)
            if not good:
                continue
            B.expect(bits(y) == bits(oracle(x, k)), (x, k), "%r with %d bits became %r, clearing the low bits gives %r" % (x, k, y, oracle(x, k)))
            B.expect(bits(f(y, k)) == bits(y), (x, k), "reducing twice changes it again")
            B.expect(abs(y) <= abs(x), (x, k), "larger in magnitude")


def c_every_k(B):
    fs = fns(B)
    for x in [0.0, 1.0, -1.0, 1 / 3, -math.pi, 1e-310, 123456.789, sys.float_info.max, flt((1023 << 52) | ((1 << 52) - 1))]:
        for k in range(0, 70):
            B.case((x, k))
            for f in fs:
                good, y = B.run((x, k), f, x, k)
                if good:
                    B.expect(bits(y) == bits(oracle(x, k)), (x, k), "became %r" % y)


def c_vector(B):
    fs = vfns(B)
    for _ in B.loop(1500):
        v, k = [numbers(B.rng) for _ in range(B.rng.randrange(0, 6))], B.rng.choice([0, 4, 16, 52, 64, B.rng.randrange(53)])
        if B.rng.random() < 0.3:
            v = tuple(v)
        keep = [bits(x) for x in v]
        B.case((v, k))
        for f in fs:
            good, w = B.run((v, k), f, v, k)
            if good:
                B.expect([bits(x) for x in w] == [bits(oracle(x, k)) for x in v], (v, k), "became %r" % (w,))
                B.expect([bits(x) for x in v] == keep, (v, k), "argument modified")


CHECKS = [("number", c_bits), ("every precision", c_every_k), ("vector", c_vector)]
