SPECIFICATION Spec
CONSTANTS
  MaxObjects = 3
  MaxRefs = 3
  MaxKept = 1
INVARIANTS SameProgram SafeObjects NoEarlierDeath SameWhenForgotten Announced Swift Whole
PROPERTY Settled
CHECK_DEADLOCK FALSE
