SPECIFICATION Spec
CONSTANT Depth = 3
VIEW View
INVARIANTS Sound Complemented Claims Reflexive
CHECK_DEADLOCK FALSE
