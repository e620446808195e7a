SPECIFICATION Spec
CONSTANTS Primes5 = {3, 5, 7}
 MaxMul = 14
INVARIANTS Group Collinear Multiples Orders Counting Hasse VeluOk VeluFull VeluTorsion VeluCyclic JOk
CHECK_DEADLOCK FALSE
