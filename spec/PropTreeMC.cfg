SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxLen = 3
  Kinds = {"d", "s"}
INVARIANT Inv
PROPERTY Others
CHECK_DEADLOCK FALSE
