SPECIFICATION Spec
CONSTANTS N = 36
 PhiL = {2, 3, 5}
INVARIANTS DeltaIsEta InverseOk JDelta Discriminant Agree Hecke Eisenstein SigmaOk PhiOk
CHECK_DEADLOCK FALSE
