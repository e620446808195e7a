SPECIFICATION Spec
CONSTANTS Fields = {5, 7, 11, 13}
 Ls = {2, 3, 5}
INVARIANTS Parity Hasse Residues Twist GcdIsRoots IsogenyRoot
CHECK_DEADLOCK FALSE
