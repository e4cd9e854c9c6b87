CONSTANTS
  NRows = 3
  Entries <- Small
  Errors = {1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS LosesNothing OrderDoesNotMatter SameSolution
