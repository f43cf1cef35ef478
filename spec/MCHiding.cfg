SPECIFICATION Spec
CONSTANTS NCls = 4 NAddr = 3
INVARIANTS Exact Refusal NoStale
CHECK_DEADLOCK FALSE
