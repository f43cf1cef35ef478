SPECIFICATION Spec
CONSTANTS
  Wide = 2
  Nodes = 3
  Lines = 5
INVARIANTS Back Stable Refused
CHECK_DEADLOCK FALSE
