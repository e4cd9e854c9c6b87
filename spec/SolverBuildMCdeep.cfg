SPECIFICATION Spec
CONSTANTS T = 5 MaxThreads = 7 States = {1, 2} Conds = {0, 1} MaxOps = 9
INVARIANTS Partition Once NoResidue CostRight SolRight
CHECK_DEADLOCK FALSE
