import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib, pkgutil, traceback
from pydv import spec
m=importlib.import_module("contracts."+sys.argv[1])
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        c=spec.Ctx(p)
        try: p.fn(c); print(p.name,"ok",len(c.eng.obls))
        except Exception: traceback.print_exc()
