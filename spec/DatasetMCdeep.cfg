SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 3
  W = 3
  Report = TRUE
INVARIANTS ReadOrdered ReadWanted NothingLost FailureSeen SerialToo
PROPERTY Ends
CHECK_DEADLOCK FALSE
