SPECIFICATION Spec
CONSTANTS N = 9  MaxIt = 8  NaN = NaN
INVARIANTS Truthful NeverHigher Bounded Counts
PROPERTIES Monotone Undone Terminates
CHECK_DEADLOCK FALSE
