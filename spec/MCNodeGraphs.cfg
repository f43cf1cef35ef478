SPECIFICATION Spec
CONSTANTS
  U = {1, 2, 3}
  NR = 2
  MaxE = 2
INVARIANTS TypeOK Laws
PROPERTIES Frame SetKeeps
VIEW View
CHECK_DEADLOCK FALSE
