SPECIFICATION Spec
CONSTANTS
  N = 6
  Depth = 8
INVARIANTS Partition Sizes Member Shallow
CHECK_DEADLOCK FALSE
