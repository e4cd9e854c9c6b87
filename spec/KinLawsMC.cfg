INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3 Gens = {1, 2, 3, 4}
INVARIANTS Associative Rigid Inverse Homomorphism Action AdjointHomomorphism AdjointInverse AdjointAction InverseCovariance BoxMinusIsDerivative Rodrigues RotVec LogExp Euler Points SMatrix Screw
