--------------------------- MODULE ErrorTermTrace ---------------------------
(***************************************************************************)
(* Error terms and M-estimators: what one term says about its error, its   *)
(* weight, its Jacobians and the blocks it adds, against the definitions   *)
(* of LeastSquares.tla, through any history of setting weights,            *)
(* estimators and states.                                                  *)
(***************************************************************************)
EXTENDS LeastSquares, Trc, FiniteSets

VARIABLES dvs, ets, raw
vars == <<l, dvs, ets, raw>>

TDv == Is("dv") /\ dvs' = Append(dvs, DvOf(Line)) /\ raw' = Append(raw, Line.x) /\ UNCHANGED ets
LOk(wk, W, L) == IF wk = "I" THEN L = W
                 ELSE IF wk = "S" THEN L = W ELSE MNear(MM(L, MT(L)), W, MMax(W), 44)
TEt == /\ Is("et")
       /\ LET e == EtOf(Line)
              L == Mat(Line.L)
          IN  /\ Chk("the square root of the weight", LOk(Line.wk, Mat(Line.W), L))
              /\ ets' = Append(ets, [dim |-> e.dim, W |-> e.W, mk |-> e.mk, mp |-> e.mp, bound |-> e.bound, ids |-> e.ids,
                                     c |-> e.c, A |-> e.A, Q |-> e.Q, p |-> e.p, L |-> L])
       /\ UNCHANGED <<dvs, raw>>
TSet == Is("state") /\ raw' = Line.x /\ UNCHANGED <<dvs, ets>>
TSetMest == /\ Is("setmest")
            /\ ets' = [ets EXCEPT ![Line.i + 1] = [@ EXCEPT !.mk = Line.mk, !.mp = Vec(Line.mp)]]
            /\ UNCHANGED <<dvs, raw>>
TSetW == /\ Is("setw")
         /\ LET W == Mat(Line.W)
                L == Mat(Line.L)
            IN  /\ Chk("the square root of the weight", LOk(Line.wk, W, L))
                /\ ets' = [ets EXCEPT ![Line.i + 1] = [@ EXCEPT !.W = WOf(Line.wk, W), !.L = L]]
         /\ UNCHANGED <<dvs, raw>>

Relative(obs, exact, k) == RIsFinite(obs) /\ RLe(RAbs(RSub(RX(obs), exact)), RAdd(RMul(Eps(k), RAbs(exact)), Eps(70)))
Double(m) == MAdd(m, m)
TEval ==
  /\ Is("eval")
  /\ LET i == Line.i + 1
         et == ets[i]
         one == <<et>>
         x == Xs(raw)
         e == Residual(et, x)
         q == ChiSq(et, x)
         qs == RAdd(R(1), ChiScale(et, x))
         w == Force(RRnd(Weight(et.mk, et.mp, q), BITS))
         ms == RMul(RAdd(R(1), MMax(et.L)), RAdd(R(1), Magnitude(et, x)))
         \* a weight moves with the rounding of the squared error it is a function of
         wtol == RMul(Eps(40), RMul(WeightMax(et.mk, et.mp), qs))
         sw == Force(RSqrt(w, 120))
         swn(obs, v, sc) == RIsFinite(obs) /\ RLe(RAbs(RSub(RX(obs), v)), RMul(Eps(34), RMul(sc, RMul(WeightMax(et.mk, et.mp), qs))))
         J == FullJac(et, dvs, x, FALSE)
         JS == FullJac(et, dvs, x, TRUE)
         js == RAdd(R(1), MMax(JS))
         we(m) == VScale(IF m THEN sw ELSE R(1), MTV(et.L, e))
         wj(m) == MScale(IF m THEN sw ELSE R(1), MM(MT(et.L), JS))
         Hm(m) == Hessian(dvs, one, x, m)
         rm(m) == Rhs(dvs, one, x, m)
         rs == RMul(RhsScale(dvs, one, x), RMul(WeightMax(et.mk, et.mp), qs))
         hs == RMul(RMul(R(9), RAdd(R(1), MMax(et.W))), RMul(RMul(js, js), RMul(WeightMax(et.mk, et.mp), qs)))
         up(obs, H) == /\ Len(obs) = Len(H) /\ AllFiniteM(obs)
                       /\ \A a \in 1..Len(H) : \A b \in 1..Len(H) :
                             Near(RX(obs[a][b]), H[a][b], hs, 34) \/ (a > b /\ RSign(RX(obs[a][b])) = 0)
         vn(obs, v, sc) == Len(obs) = Len(v) /\ AllFinite(obs) /\ VNear(Vec(obs), v, sc, 34)
         mn(obs, v, sc) == Len(obs) = Len(v) /\ AllFiniteM(obs) /\ MNear(Mat(obs), v, sc, 34)
     IN  /\ Chk("the state is the one that was set", Line.x = raw)
         /\ Chk("dimension", Line.dim = et.dim)
         /\ Chk("the error", LVNear(Line.e, e, RAdd(R(1), Magnitude(et, x)), 44) /\ Line.e2 = Line.e)
         /\ Chk("raw squared error", LNear(Line.raw, q, qs, 44) /\ Line.s0 = Line.raw)
         /\ Chk("weighted squared error", NearCost(Line.J, Cost(one, x)) /\ Line.wsq = Line.J /\ Line.s1 = Line.J)
         /\ Chk("weight", /\ RIsFinite(Line.w) /\ Near(RX(Line.w), w, RMul(WeightMax(et.mk, et.mp), qs), 40)
                          /\ Line.wraw = Line.w
                          /\ RSign(RX(Line.w)) >= 0 /\ (et.mk # "gm" => RLe(RX(Line.w), R(1))))
         /\ Chk("the cost is the weight times the squared error", Relative(Line.J, RMul(RX(Line.w), RX(Line.raw)), 50))
         /\ Chk("inverse covariance", LMNear(Line.invR, et.W, MMax(et.W), 44) /\ Line.invR2 = Line.invR)
         /\ Chk("Jacobian", LMNear(Line.jac, J, RAdd(R(1), MMax(J)), 44))
         /\ Chk("weighted error", LVNear(Line.we0, we(FALSE), ms, 44) /\ vn(Line.we1, we(TRUE), RMul(ms, qs)))
         /\ Chk("weighted Jacobians", mn(Line.wj0, wj(FALSE), RMul(RAdd(R(1), MMax(et.L)), js)) /\ mn(Line.wj1, wj(TRUE), RMul(RMul(RAdd(R(1), MMax(et.L)), js), qs)))
         /\ Chk("Hessian block", up(Line.H0, Hm(FALSE)) /\ up(Line.H1, Hm(TRUE)))
         /\ Chk("right-hand side", vn(Line.rhs0, rm(FALSE), rs) /\ vn(Line.rhs1, rm(TRUE), rs))
         /\ Chk("blocks are added", /\ up(Line.HH0, Double(Hm(FALSE))) /\ up(Line.HH1, Double(Hm(TRUE)))
                                    /\ vn(Line.rrhs0, VScale(R(2), rm(FALSE)), rs) /\ vn(Line.rrhs1, VScale(R(2), rm(TRUE)), rs))
         \* weighted by one and the same weight: the squared weighted error is the cost
         /\ Chk("the squared weighted error is the cost", Near(VSq(Vec(Line.we1)), RX(Line.J), RMul(qs, WeightMax(et.mk, et.mp)), 40))
         /\ Chk("finite differences", LET fs == RMul(RAdd(R(1), Magnitude(et, x)), RAdd(R(1), MMax(FullJac(et, dvs, x, TRUE)))) IN
                LMNear(Line.fd, J, fs, 24))
  /\ UNCHANGED <<dvs, ets, raw>>
\* one minus the chi-square distribution function with an even number of degrees of freedom
RECURSIVE ChiTail(_, _, _, _)
ChiTail(h, k, i, t) == IF i = k THEN R(0) ELSE RAdd(t, ChiTail(h, k, i + 1, RDiv(RMul(t, h), R(i + 1))))
Survival(x, df) == RMul(RExp(RNeg(RDiv(x, R(2))), 120), ChiTail(RDiv(x, R(2)), df \div 2, 0, R(1)))
TWeights ==
  /\ Is("weights")
  /\ LET mp == Vec(Line.mp)
         n == Len(Line.e)
         e == Vec(Line.e)
         bz == Line.mk = "bz"
         df == RToInt(mp[1])
         \* exp(-chi2inv): from the inverse the code computed, once that is known to be right
         eps == IF bz THEN RMul(RDiv(RSub(R(1), mp[3]), mp[3]), RExp(RNeg(RX(Line.cut)), 160)) ELSE R(0)
         W(q) == IF bz THEN RDiv(R(1), RAdd(R(1), RMul(eps, RExp(RMin(q, R(800)), BITS)))) ELSE Weight(Line.mk, mp, q)
     IN  /\ Chk("chi-square quantile", bz /\ df % 2 = 0 => Near(Survival(RX(Line.cut), df), RSub(R(1), mp[2]), R(1), 38))
         /\ Chk("the weight at the cut", bz => Relative(Line.wcut, mp[3], 30))
         /\ Chk("the weights", \A i \in 1..n : Relative(Line.w[i], W(e[i]), IF bz THEN 30 ELSE 46))
         /\ Chk("range", \A i \in 1..n : RSign(RX(Line.w[i])) >= 0 /\ RLe(RX(Line.w[i]), RMul(WeightMax(Line.mk, mp), RAdd(R(1), Eps(50)))))
         /\ Chk("monotone", \A i \in 1..n : \A j \in 1..n : RLe(e[i], e[j]) => RLe(RX(Line.w[j]), RMul(RX(Line.w[i]), RAdd(R(1), Eps(48)))))
         \* a larger residual never gets a larger share than a proportional one
         /\ Chk("no estimator", Line.mk = "none" => \A i \in 1..n : REq(RX(Line.w[i]), R(1)))
  /\ UNCHANGED <<dvs, ets, raw>>

Init == l = 1 /\ dvs = <<>> /\ ets = <<>> /\ raw = <<>>
TBegin == Is("begin") /\ dvs' = <<>> /\ ets' = <<>> /\ raw' = <<>>
Next == Step /\ (TBegin \/ TDv \/ TEt \/ TSet \/ TSetMest \/ TSetW \/ TEval \/ TWeights)
=============================================================================
