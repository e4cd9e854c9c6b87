SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS Range Monotone NoOp Bounded HuberInfluence CauchyBound CutWeight
CHECK_DEADLOCK FALSE
