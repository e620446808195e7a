SPECIFICATION Spec
CONSTANTS Fields = {3, 5}
 MaxN = 7
INVARIANTS Integral Describe
CHECK_DEADLOCK FALSE
