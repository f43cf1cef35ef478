SPECIFICATION Spec
CONSTANTS
  N = 2
  Rich = FALSE
INVARIANTS Declared Told Once
PROPERTIES Stays
CHECK_DEADLOCK FALSE
