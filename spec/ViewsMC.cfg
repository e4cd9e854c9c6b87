SPECIFICATION Spec
CONSTANTS
  Cams = {0, 1}
  TMax = 4
  Tol = 1
  Depth = 4
  Corners = {{1}, {1, 2}}
INVARIANTS OneView Synchronised Apart NoneLost Grouped Symmetric Mutual
CHECK_DEADLOCK FALSE
