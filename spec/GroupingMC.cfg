SPECIFICATION Spec
CONSTANTS
  N = 5
  Depth = 6
INVARIANTS Partition Sizes Member Shallow
CHECK_DEADLOCK FALSE
