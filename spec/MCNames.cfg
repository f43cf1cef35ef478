SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS True Complete All
CHECK_DEADLOCK FALSE
