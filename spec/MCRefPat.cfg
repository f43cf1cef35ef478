SPECIFICATION Spec
CONSTANTS
 N = 3
 Depths = {0, 2, 4}
INVARIANTS Holds
CHECK_DEADLOCK FALSE
