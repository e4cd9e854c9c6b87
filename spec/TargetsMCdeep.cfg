SPECIFICATION Spec
CONSTANTS
  N = 3
  Values = {5, 6}
  Depth = 3
  MaxRows = 12
  MaxCols = 12
INVARIANTS Meaning Paired
CHECK_DEADLOCK FALSE
