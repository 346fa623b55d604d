def assumptions(results):
    base = ["pydv (this engine): Python semantics of the supported subset, loop closed forms, verification-condition generation",
            "z3 / cvc5 answer 'unsat' correctly",
            "machine floats are read as real numbers (no rounding, overflow, NaN); pow/sqrt/exp/sin/cos are uninterpreted real functions with the facts listed",
            "models of the Python built-ins and library functions in pydv/builtins_model.py (random.* return any value of their documented range)",
            "the sequence arguments of a function under contract are not aliased with each other unless the contract says so"]
    t = set()
    for r in results:
        t |= set(r.get("trusted", []))
    return base + sorted(t)
