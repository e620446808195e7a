SPECIFICATION Spec
CONSTANTS P0 = 2
 MaxDeg = 3
INVARIANTS Remainder Gcd Monic SameSparse RoundTrip
CHECK_DEADLOCK FALSE
