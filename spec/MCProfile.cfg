SPECIFICATION Spec
CONSTANTS
 MaxWrites = 3
 MaxLen = 5
 StatFirst = TRUE
INVARIANTS Exact Agrees Sane
CHECK_DEADLOCK FALSE
