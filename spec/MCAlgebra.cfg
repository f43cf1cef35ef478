SPECIFICATION Spec
CONSTANT Depth = 2
VIEW View
INVARIANTS Sound Complemented Claims Reflexive
CHECK_DEADLOCK FALSE
