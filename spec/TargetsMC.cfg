SPECIFICATION Spec
CONSTANTS
  N = 2
  Values = {5, 6}
  Depth = 3
  MaxRows = 12
  MaxCols = 12
INVARIANTS Meaning Paired
CHECK_DEADLOCK FALSE
