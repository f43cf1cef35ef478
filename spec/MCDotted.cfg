SPECIFICATION Spec
CONSTANTS
  Wide = 2
  Nodes = 2
  Lines = 4
INVARIANTS Back Stable Refused
CHECK_DEADLOCK FALSE
