SPECIFICATION Spec
CONSTANTS
  GI = 4
  TMax = 4
  DMax = 2
  Depth = 6
  N = 6
  DX = 2
  Y = 4
CONSTRAINT Bound
INVARIANTS Normal Exact Ordered OnlyUnfit HullLower HullOf Convex MidIn Constant
CHECK_DEADLOCK FALSE
