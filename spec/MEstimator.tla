------------------------------ MODULE MEstimator ------------------------------
(***************************************************************************)
(* One error term through its life: its weighting, its estimator and the   *)
(* state of its variables change; the cached squared error is refreshed by *)
(* evaluateError only, and every report uses the weight of that cached     *)
(* error and the estimator in force.  Checked with the weight functions    *)
(* over a grid of squared errors.                                          *)
(***************************************************************************)
EXTENDS LeastSquares, FiniteSets

CONSTANTS MaxOps
Q == {RQ(n, 4) : n \in {0, 1, 2, 3, 4, 6, 9, 16, 40, 100}}
Estimators == {<<"none", <<>>>>, <<"gm", <<R(1)>>>>, <<"gm", <<R(4)>>>>, <<"cauchy", <<RQ(1, 2)>>>>, <<"cauchy", <<R(4)>>>>,
               <<"huber", <<RQ(1, 2)>>>>, <<"huber", <<R(2)>>>>, <<"bz", <<R(2), RQ(9, 10), RQ(1, 10)>>>>}
VARIABLES q,       \* the squared error at the variables' current state
          cached,  \* what the term remembers
          m, cost, ops
vars == <<q, cached, m, cost, ops>>
W(e, s) == Weight(e[1], e[2], s)
None == <<"none", <<>>>>
Init == q = R(1) /\ cached = R(0) /\ m = None /\ cost = R(0) /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
Move(s) == Tick /\ s # q /\ q' = s /\ UNCHANGED <<cached, m, cost>>
SetM(e) == Tick /\ e # m /\ m' = e /\ UNCHANGED <<q, cached, cost>>
Clear == Tick /\ m # None /\ m' = None /\ UNCHANGED <<q, cached, cost>>
Evaluate == Tick /\ cached' = q /\ cost' = Force(RMul(W(m, q), q)) /\ UNCHANGED <<q, m>>
Next == (\E s \in Q : Move(s)) \/ (\E e \in Estimators : SetM(e)) \/ Clear \/ Evaluate
Spec == Init /\ [][Next]_vars

Weighted == Force(RMul(W(m, cached), cached))
Range == RSign(W(m, cached)) > 0 /\ RLe(W(m, cached), WeightMax(m[1], m[2]))
Monotone == \A s \in Q : RLe(cached, s) => RLe(W(m, s), W(m, cached))
NoOp == m = None => REq(Weighted, cached)
\* redescending or not, the cost of a robust term never exceeds its weight bound times the plain cost
Bounded == RLe(Weighted, RMul(WeightMax(m[1], m[2]), cached))
\* Huber: influence w sqrt(q) is constant beyond k;  Cauchy: the weighted cost is below sigma^2
HuberInfluence == m[1] = "huber" /\ RLe(RMul(m[2][1], m[2][1]), cached) => Near(RMul(W(m, cached), RSqrt(cached, 140)), m[2][1], R(1), 100)
CauchyBound == m[1] = "cauchy" => RLe(Weighted, m[2][1])
CutWeight == m[1] = "bz" => LET c == RMul(R(-2), RLn(RSub(R(1), m[2][2]), 140)) IN Near(W(m, c), m[2][3], R(1), 90)
=============================================================================
