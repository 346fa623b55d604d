DV = "contract-based deductive verification of the real Python source (pydv VCs, z3/cvc5)"
RT = "executable contracts of the functions, evaluated on the real code (bounded stand-in for deductive verification)"
MIX = DV + " + " + RT
LEVELS = {
 "C01": ("proof", DV + ", plus bounded replay layer", "all obligations unbounded; floats as reals in the comparisons; see evidence trusted_base"),
 **{("C%02d" % k): ("other", MIX, "parts under discharged contracts, the rest bounded: see evidence functions_under_contract and bounded_checks") for k in range(2, 19)},
}
NOT_APPLICABLE = {}
