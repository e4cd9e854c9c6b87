INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Orders = {1, 2, 3}
  Width = 4
  MaxSegs = 2
  Steps = 2
  Tidy <- Same
