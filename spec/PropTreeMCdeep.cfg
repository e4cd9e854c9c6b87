SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxLen = 3
  Kinds = {"d", "s"}
INVARIANT Inv
PROPERTY Others
CHECK_DEADLOCK FALSE
