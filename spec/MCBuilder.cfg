SPECIFICATION Spec
CONSTANTS NP = 1
 NT = 1
 MaxSteps = 5
INVARIANTS LastWriter Built
CHECK_DEADLOCK FALSE
