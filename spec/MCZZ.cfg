SPECIFICATION Spec
CONSTANTS R = 6
 Steps = 3
INVARIANTS Well Override Ring Native
CHECK_DEADLOCK FALSE
