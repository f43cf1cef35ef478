SPECIFICATION Spec
CONSTANTS
  N = 2
  Rich = TRUE
INVARIANTS Declared Told Once
PROPERTIES Stays
CHECK_DEADLOCK FALSE
