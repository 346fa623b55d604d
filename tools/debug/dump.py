"""dump.py cXX proof-substr obligation-substr index: print the hypotheses and goal of an obligation"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib, z3
z3.set_option(max_width=180, max_depth=60, max_args=200, max_lines=5000)
from pydv import spec
m=importlib.import_module("contracts."+sys.argv[1])
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        c=spec.Ctx(p); c.final=False
        p.fn(c)
        os_=[o for o in c.eng.obls if sys.argv[3] in o.name]
        for n,o in enumerate(os_):
            if len(sys.argv)>4 and int(sys.argv[4])!=n: continue
            print(n,o.name, o.where)
            if len(sys.argv)>4:
                for h in o.hyps: print("  H", h)
                print("  G", o.goal)
