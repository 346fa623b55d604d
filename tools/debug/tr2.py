import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib, traceback
from pydv import spec
import pydv.values as V
m=importlib.import_module("contracts."+sys.argv[1])
class Boom(Exception): pass
oi=V.Unsupported.__init__
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        c=spec.Ctx(p)
        try:
            p.fn(c)
            for o in c.eng.obls: 
                o.discharge(c.eng,8000); print(o.name,o.status)
        except Exception: traceback.print_exc()
