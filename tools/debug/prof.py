import sys; sys.path.insert(0,'/verif')
import importlib, time, z3
from pydv import spec, solve
import pydv.solve as S
o=S.check
log=[]
def w(fs,*a,**k):
    t=time.time(); r=o(fs,*a,**k); dt=time.time()-t
    if dt>0.25: print(round(dt,2), r[0], k, len(fs), str(fs[-1])[:150].replace("\n"," "),flush=True)
    return r
S.check=w
import pydv.engine as E, pydv.loops as L, pydv.builtins_model as B
for m in (E,L,B,spec):
    if hasattr(m,'check') and m.check is o: m.check=w
importlib.import_module("contracts."+sys.argv[1].lower())
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        import signal; signal.alarm(int(sys.argv[3]) if len(sys.argv)>3 else 150)
        r=spec.run_proof(p); print(r["status"],r["reason"]); 
        for ob in r["obligations"]: print(ob["name"],ob["where"],ob["status"],ob["time"], ob.get("goal","")[:1500])
