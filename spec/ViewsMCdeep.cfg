SPECIFICATION Spec
CONSTANTS
  Cams = {0, 1, 2}
  TMax = 4
  Tol = 1
  Depth = 5
  Corners = {{1}}
INVARIANTS OneView Synchronised Apart NoneLost Grouped Symmetric Mutual
CHECK_DEADLOCK FALSE
