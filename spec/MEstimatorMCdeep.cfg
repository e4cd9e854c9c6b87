SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS Range Monotone NoOp Bounded HuberInfluence CauchyBound CutWeight
CHECK_DEADLOCK FALSE
