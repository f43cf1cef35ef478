SPECIFICATION Spec
CONSTANTS
  MaxObjects = 4
  MaxRefs = 4
  MaxKept = 1
INVARIANTS SameProgram SafeObjects NoEarlierDeath SameWhenForgotten Announced Swift Whole
PROPERTY Settled
CHECK_DEADLOCK FALSE
