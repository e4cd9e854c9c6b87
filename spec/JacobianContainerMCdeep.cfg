SPECIFICATION Spec
CONSTANTS Vars = {1, 2, 3} Vals = {1, 5} Facs = {2} MaxOps = 6
INVARIANTS Exact Sorted
CHECK_DEADLOCK FALSE
