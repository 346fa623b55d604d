import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib
from pydv import spec, invloop
invloop.DEBUG=True
m=importlib.import_module("contracts."+sys.argv[1])
for p in spec.PROOFS:
    if sys.argv[2] in p.name: print(spec.run_proof(p)["status"])
