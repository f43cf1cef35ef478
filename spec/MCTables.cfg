SPECIFICATION Spec
INVARIANTS InOrder Complete Within Again
CHECK_DEADLOCK FALSE
