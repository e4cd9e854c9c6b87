SPECIFICATION Spec
CONSTANTS
  W = 2
  Jobs = 3
  UnderLock = TRUE
  CountEarly = TRUE
INVARIANTS AtMostOnce OnlyGiven Accounted InOrder WaitedFor Joined NoneAfterTheEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
