SPECIFICATION Spec
CONSTANTS
  K = 2
  Side = 2
  Eqs = 2
  MaxRules = 4
  MaxLen = 3
  P = 2
INVARIANTS Sound Decided Easy
CHECK_DEADLOCK FALSE
