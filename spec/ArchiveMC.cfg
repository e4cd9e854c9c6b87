SPECIFICATION Spec
CONSTANTS
  NameSet = {"a", "b"}
  Vals = {0, 2}
  Depth = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
