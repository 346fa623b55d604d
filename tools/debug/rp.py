import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib,time
from pydv import spec, invloop
invloop.DEBUG=True
m=importlib.import_module("contracts."+sys.argv[1])
oh=invloop.holds
def holds(eng,c,s,k):
    t=time.time(); r=oh(eng,c,s,k); dt=time.time()-t
    print("   holds",r,"%.2f"%dt, getattr(c,'__code__',None) and (c.__code__.co_firstlineno), flush=True); return r
invloop.holds=holds
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        r=spec.run_proof(p); print(r["status"],r["reason"]); print(r.get("trace",""))
