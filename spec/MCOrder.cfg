SPECIFICATION Spec
INVARIANTS Total Transitive NoneFirst
CHECK_DEADLOCK FALSE
