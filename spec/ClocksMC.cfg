SPECIFICATION Spec
CONSTANTS
  GI = 3
  TMax = 2
  DMax = 1
  Depth = 3
  N = 5
  DX = 2
  Y = 3
CONSTRAINT Bound
INVARIANTS Normal Exact Ordered OnlyUnfit HullLower HullOf Convex MidIn Constant
CHECK_DEADLOCK FALSE
