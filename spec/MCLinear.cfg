SPECIFICATION Spec
CONSTANT B = 2
INVARIANTS Rank Unique
CHECK_DEADLOCK FALSE
