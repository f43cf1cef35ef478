SPECIFICATION Spec
CONSTANTS
  U = {1, 2}
  NR = 2
  MaxSets = 3
INVARIANTS TypeOK Lifetime Iters
PROPERTY Frame
VIEW View
CHECK_DEADLOCK FALSE
