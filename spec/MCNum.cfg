SPECIFICATION Spec
CONSTANTS B = 12
 UPrimes = {2, 3, 5, 7, 11}
INVARIANTS Inverses Euclid Crt Primality Unknowns
CHECK_DEADLOCK FALSE
