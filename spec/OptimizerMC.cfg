SPECIFICATION Spec
CONSTANTS N = 5  MaxIt = 4  NaN = NaN
INVARIANTS Truthful NeverHigher Bounded Counts
PROPERTIES Monotone Undone Terminates
CHECK_DEADLOCK FALSE
