"""candidates dropped: iv.py cXX proof-substring"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib
from pydv import spec, invloop
m=importlib.import_module("contracts."+sys.argv[1])
invloop.DEBUG=True
for p in spec.PROOFS:
    if sys.argv[2] in p.name:
        r=spec.run_proof(p); print(p.name, r["status"],r["reason"],r["wall_s"],r["queries"])
        for o in r["obligations"]: print("  >",o["status"],o["time"],o["backend"],o["name"],o["where"])
