SPECIFICATION Spec
CONSTANTS
  Points = 1
  Deep = FALSE
INVARIANTS Positive ScaleFree Euler DPoint DPar RoundTrip Nested
CHECK_DEADLOCK FALSE
