SPECIFICATION Spec
CONSTANTS
  Families = {"16h5", "16h5o", "25h7", "25h9", "36h11", "36h11o", "36h9"}
  MaxRows = 12
  MaxCols = 12
INVARIANTS Apart Whole Correctable Shared Turned
CHECK_DEADLOCK FALSE
