SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  W = 2
  Report = TRUE
INVARIANTS ReadOrdered ReadWanted NothingLost FailureSeen SerialToo
PROPERTY Ends
CHECK_DEADLOCK FALSE
