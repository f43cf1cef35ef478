SPECIFICATION Spec
CONSTANTS NObj = 5 NAddr = 3 NHor = 2
INVARIANTS Exact Since Patched
CHECK_DEADLOCK FALSE
