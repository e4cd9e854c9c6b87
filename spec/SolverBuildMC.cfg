SPECIFICATION Spec
CONSTANTS T = 3 MaxThreads = 4 States = {1, 2} Conds = {0, 1} MaxOps = 5
INVARIANTS Partition Once NoResidue CostRight SolRight
CHECK_DEADLOCK FALSE
