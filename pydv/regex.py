"""Python regular expressions as z3 regular expressions (named groups at the top level of the pattern only)"""
import re
import z3
from .values import *

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc

DIGITS = z3.Range("0", "9")


def _seq(items):
    rs = [one(x) for x in items]
    return rs[0] if len(rs) == 1 else z3.Concat(*rs) if rs else z3.Re("")


def one(x):
    op, av = x
    if op is sc.LITERAL:
        return z3.Re(chr(av))
    if op is sc.IN:
        alts = []
        for o, v in av:
            if o is sc.CATEGORY and v is sc.CATEGORY_DIGIT:
                alts.append(DIGITS)
            elif o is sc.RANGE:
                alts.append(z3.Range(chr(v[0]), chr(v[1])))
            elif o is sc.LITERAL:
                alts.append(z3.Re(chr(v)))
            else:
                raise Unsupported("regex class")
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    if op is sc.MAX_REPEAT:
        lo, hi, sub = av
        r = _seq(sub)
        if hi is sc.MAXREPEAT:
            return z3.Plus(r) if lo == 1 else z3.Star(r) if lo == 0 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    if op is sc.SUBPATTERN:
        return _seq(av[3])
    if op is sc.BRANCH:
        return z3.Union(*[_seq(b) for b in av[1]])
    raise Unsupported("regex %s" % op)


def pieces(pattern):
    """-> [(group name or None, z3 regex)]"""
    p = sp.parse(pattern)
    names = {v: k for k, v in p.state.groupdict.items()}
    out, run = [], []
    for x in p:
        if x[0] is sc.SUBPATTERN and x[1][0] in names:
            if run:
                out.append((None, _seq(run)))
                run = []
            out.append((names[x[1][0]], one(x)))
        else:
            run.append(x)
    if run:
        out.append((None, _seq(run)))
    return out


def fullmatch(eng, st, pattern, text):
    """-> (condition, {group: term}); facts about the groups go to the state"""
    ps = pieces(pattern)
    t = strz(text)
    whole = z3.InRe(t, ps[0][1] if len(ps) == 1 else z3.Concat(*[r for _, r in ps]))
    terms, groups = [], {}
    for k, (nm, r) in enumerate(ps):
        g = z3.Function("re:%s:%d" % (pattern, k), STR, STR)(t)
        terms.append(g)
        if nm is not None:
            groups[nm] = g
        eng.fact(st, z3.Implies(whole, z3.InRe(g, r)))
    eng.fact(st, z3.Implies(whole, t == (terms[0] if len(terms) == 1 else z3.Concat(*terms))))
    return whole, groups
