SPECIFICATION SimSpec
CONSTANTS NP = 8
 NT = 4
 MaxTerms = 24
 MaxLimbs = 60
 MaxExp = 40
 Depth = 70
 Kinds = {0, 1, 2, 3}
 Ops <- AllOps
INVARIANTS RegistersCanonical SimPrint
CHECK_DEADLOCK FALSE
