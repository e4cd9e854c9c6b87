SPECIFICATION Spec
CONSTANTS
  Families = {"16h5", "16h5o", "25h7", "25h9", "36h11", "36h11o"}
  MaxRows = 6
  MaxCols = 6
INVARIANTS Apart Whole Correctable Shared Turned
CHECK_DEADLOCK FALSE
