SPECIFICATION SimSpec
CONSTANTS Depth = 60
 Enumerate = TRUE
 MaxP = 43
INVARIANTS TypeOk SimPrint
CHECK_DEADLOCK FALSE
