SPECIFICATION Spec
CONSTANTS U = {0, 1, 2}
          R = 2
INVARIANTS Laws TypeOK
PROPERTIES Frame Snapshot
VIEW View
CHECK_DEADLOCK FALSE
