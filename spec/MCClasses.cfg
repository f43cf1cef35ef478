SPECIFICATION Spec
INVARIANTS OwnerExact Partitioned Refined Ordered
CHECK_DEADLOCK FALSE
