SPECIFICATION Spec
CONSTANTS
  NameSet = {"a", "b"}
  Vals = {0, 2}
  Depth = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE
