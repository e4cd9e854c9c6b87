INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Orders = {1, 2, 3, 4}
  Width = 7
  MaxSegs = 3
  Steps = 3
  Tidy <- Same
