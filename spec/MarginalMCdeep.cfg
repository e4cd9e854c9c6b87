CONSTANTS
  NRows = 3
  Entries <- Larger
  Errors = {0, 1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS LosesNothing OrderDoesNotMatter SameSolution
