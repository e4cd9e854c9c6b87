---------------------------- MODULE LeastSquares ----------------------------
(***************************************************************************)
(* Nonlinear least squares problems with polynomial residuals, exactly:    *)
(* residuals, Jacobians, robust weights, cost and normal equations.        *)
(*                                                                         *)
(* dvs : sequence of [s |-> scaling, active |-> BOOLEAN, n |-> dimension]  *)
(* ets : sequence of [dim, W (inverse covariance), mk, mp (M-estimator),   *)
(*        bound, ids (1-based design variables), c, A, Q, p]               *)
(* xs  : one vector per design variable                                    *)
(***************************************************************************)
EXTENDS Exact

BITS == 140

\* ---------------------------------------------------------- M-estimators
\* the weight of a squared error q
Weight(mk, mp, q) ==
  CASE mk = "none" -> R(1)
    [] mk = "gm" -> LET s == RAdd(mp[1], q) IN RDiv(mp[1], RMul(s, s))
    [] mk = "cauchy" -> RDiv(R(1), RAdd(R(1), RDiv(q, mp[1])))
    [] mk = "huber" -> IF RLt(q, RMul(mp[1], mp[1])) THEN R(1) ELSE RDiv(mp[1], RSqrt(q, BITS))
    [] mk = "bz" ->   \* two degrees of freedom: exp(-chi2inv(p)) = (1 - p)^2
         LET u == RSub(R(1), mp[2])
             eps == RMul(RDiv(RSub(R(1), mp[3]), mp[3]), RMul(u, u))
         IN  RDiv(R(1), RAdd(R(1), RMul(eps, RExp(RMin(q, R(800)), BITS))))
\* an upper bound of the weights, to scale tolerances
WeightMax(mk, mp) == IF mk = "gm" THEN RMax(R(1), RDiv(R(1), mp[1])) ELSE R(1)

\* --------------------------------------------------- residuals, Jacobians
Stack(et, xs) == VCat([k \in 1..Len(et.ids) |-> xs[et.ids[k]]])
Last(s) == s[Len(s)]
InDomain(et, xs) == RSign(et.bound) < 0 \/ RLe(RAbs(Stack(et, xs)[1]), et.bound)
Residual(et, xs) ==
  LET s == Stack(et, xs)
      q == Force([k \in 1..Len(s) |-> RMul(s[k], s[k])])
  IN  Force([r \in 1..et.dim |-> RAdd(RAdd(et.c[r], RDot(et.A[r], s)),
                                      RAdd(RDot(et.Q[r], q), RMul(et.p[r], RMul(s[1], Last(s)))))])
\* the sum of the magnitudes of what is added up: rounding errors are relative to this
Magnitude(et, xs) ==
  LET s == Stack(et, xs)
      a == Force([k \in 1..Len(s) |-> RAbs(s[k])])
      row(r) == RAdd(RAdd(RAbs(et.c[r]), RSum([k \in 1..Len(s) |-> RMul(RAbs(et.A[r][k]), a[k])])),
                     RAdd(RSum([k \in 1..Len(s) |-> RMul(RAbs(et.Q[r][k]), RMul(a[k], a[k]))]),
                          RMul(RAbs(et.p[r]), RMul(a[1], Last(a)))))
  IN  VMax([r \in 1..et.dim |-> row(r)])
\* with respect to the stacked coordinates
StackJac(et, xs) ==
  LET s == Stack(et, xs)
      n == Len(s)
  IN  Force([r \in 1..et.dim |-> [k \in 1..n |->
        RAdd(RAdd(et.A[r][k], RMul(R(2), RMul(et.Q[r][k], s[k]))),
             RAdd(IF k = 1 THEN RMul(et.p[r], s[n]) ELSE R(0),
                  IF k = n THEN RMul(et.p[r], s[1]) ELSE R(0)))]])

\* --------------------------------------------- columns of active variables
RECURSIVE ColBase(_, _)
ColBase(dvs, i) == IF i = 1 THEN 0
                   ELSE ColBase(dvs, i - 1) + (IF dvs[i - 1].active THEN dvs[i - 1].n ELSE 0)
NCol(dvs) == ColBase(dvs, Len(dvs) + 1)
RECURSIVE StackBase(_, _, _)
StackBase(et, dvs, k) == IF k = 1 THEN 0 ELSE StackBase(et, dvs, k - 1) + dvs[et.ids[k - 1]].n
\* the Jacobian over all active columns; a variable that occurs twice contributes twice
FullJac(et, dvs, xs, scaled) ==
  LET J == StackJac(et, xs)
      n == NCol(dvs)
      col(c) == {<<k, j>> \in (1..Len(et.ids)) \X (1..3) :
                   /\ dvs[et.ids[k]].active /\ j <= dvs[et.ids[k]].n /\ ColBase(dvs, et.ids[k]) + j = c}
      RECURSIVE Add(_, _)
      Add(r, S) == IF S = {} THEN R(0)
                   ELSE LET p == CHOOSE x \in S : TRUE IN
                        RAdd(RMul(IF scaled THEN dvs[et.ids[p[1]]].s ELSE R(1), J[r][StackBase(et, dvs, p[1]) + p[2]]), Add(r, S \ {p}))
  IN  Force([r \in 1..et.dim |-> [c \in 1..n |-> Add(r, col(c))]])

\* -------------------------------------------------------------------- cost
ChiSq(et, xs) == LET e == Residual(et, xs) IN RDot(e, MV(et.W, e))
\* rounding: entries of the result are accurate to 2^-k times this
ChiScale(et, xs) == LET m == Magnitude(et, xs) IN RMul(R(et.dim * et.dim), RMul(RMax(R(1), MMax(et.W)), RMul(m, m)))
NanCost == [nan |-> TRUE, v |-> R(0), s |-> R(1)]
Cost(ets, xs) ==
  IF \E i \in 1..Len(ets) : ~InDomain(ets[i], xs) THEN NanCost
  ELSE LET t == Force([i \in 1..Len(ets) |-> LET q == ChiSq(ets[i], xs) IN RRnd(RMul(Weight(ets[i].mk, ets[i].mp, q), q), BITS)])
           s == Force([i \in 1..Len(ets) |-> RMul(WeightMax(ets[i].mk, ets[i].mp), ChiScale(ets[i], xs))])
       IN  [nan |-> FALSE, v |-> Force(RRnd(RSum(t), 200)), s |-> RMax(R(1), RRnd(RSum(s), 20))]
TOL == 42
CostTol(c) == RMul(Eps(TOL), c.s)
NearCost(str, c) == RIsFinite(str) /\ RLe(RAbs(RSub(RX(str), c.v)), CostTol(c))

\* -------------------------------------------------------- normal equations
\* H dx = rhs over the active, scaled columns; useM: robust weights applied
W1(et, xs, useM) == IF useM THEN Force(RRnd(Weight(et.mk, et.mp, ChiSq(et, xs)), BITS)) ELSE R(1)
RECURSIVE HessTo(_, _, _, _, _)
HessTo(dvs, ets, xs, useM, i) ==
  IF i = 0 THEN MZero(NCol(dvs), NCol(dvs))
  ELSE LET J == FullJac(ets[i], dvs, xs, TRUE)
       IN  MAdd(HessTo(dvs, ets, xs, useM, i - 1), MScale(W1(ets[i], xs, useM), MM(MT(J), MM(ets[i].W, J))))
Hessian(dvs, ets, xs, useM) == HessTo(dvs, ets, xs, useM, Len(ets))
RECURSIVE RhsTo(_, _, _, _, _)
RhsTo(dvs, ets, xs, useM, i) ==
  IF i = 0 THEN VZero(NCol(dvs))
  ELSE LET J == FullJac(ets[i], dvs, xs, TRUE)
       IN  VSub(RhsTo(dvs, ets, xs, useM, i - 1), VScale(W1(ets[i], xs, useM), MTV(J, MV(ets[i].W, Residual(ets[i], xs)))))
Rhs(dvs, ets, xs, useM) == RhsTo(dvs, ets, xs, useM, Len(ets))
\* magnitudes of J' W |e|
RECURSIVE RhsScaleTo(_, _, _, _)
RhsScaleTo(dvs, ets, xs, i) ==
  IF i = 0 THEN R(1)
  ELSE RAdd(RhsScaleTo(dvs, ets, xs, i - 1),
            RMul(WeightMax(ets[i].mk, ets[i].mp),
                 RMul(RMul(R(9), RMax(R(1), MMax(ets[i].W))),
                      RMul(RAdd(MMax(FullJac(ets[i], dvs, xs, TRUE)), R(1)), RAdd(Magnitude(ets[i], xs), R(1))))))
RhsScale(dvs, ets, xs) == Force(RhsScaleTo(dvs, ets, xs, Len(ets)))
AddDiag(H, d) == Force([i \in 1..Len(H) |-> [j \in 1..Len(H) |-> IF i = j THEN RAdd(H[i][j], RMul(d[i], d[i])) ELSE H[i][j]]])
\* dx solves (H + D^2) dx = rhs
Solves(H, rhs, dx, scale, k) ==
  LET r == VSub(MV(H, dx), rhs)
      s == RAdd(RMul(R(Len(rhs)), RMul(MMax(H), VMax(dx))), scale)
  IN  RLe(VMax(r), RMul(Eps(k), s))

\* -------------------------------------------------------- logged problems
DvOf(l) == [s |-> RX(l.s), active |-> l.active, n |-> Len(l.x)]
WOf(wk, M) == IF wk = "S" THEN MM(M, MT(M)) ELSE M
EtOf(l) == [dim |-> l.dim, W |-> WOf(l.wk, Mat(l.W)), mk |-> l.mk, mp |-> Vec(l.mp), bound |-> RX(l.bound),
            ids |-> [k \in 1..Len(l.dvs) |-> l.dvs[k] + 1], c |-> Vec(l.c), A |-> Mat(l.A), Q |-> Mat(l.Q), p |-> Vec(l.p)]
Xs(l) == Force([i \in 1..Len(l) |-> Vec(l[i])])
=============================================================================
