SPECIFICATION Spec
INVARIANTS Injective Zero InjectiveAll
CHECK_DEADLOCK FALSE
