-------------------------- MODULE LinearSystemTrace --------------------------
(***************************************************************************)
(* Histories of linear system solvers - evaluate the errors, build, set    *)
(* the conditioner, solve, covariance - on polynomial problems, against    *)
(* the exact system (LeastSquares.tla).  What a solver may remember is in  *)
(* the design SolverBuild.tla: the build replaces the system, a solve      *)
(* leaves it as it is.                                                     *)
(***************************************************************************)
EXTENDS LeastSquares, Trc, FiniteSets

VARIABLES dvs, ets, raw, sol, fail
vars == <<l, dvs, ets, raw, sol, fail>>
\* fail[k]: what error term k cannot give now: 0 nothing, 1 its residual, 2 its Jacobians
\* sol[name] = [k, diag, m, e (the state of the last errors), at (the state of the last build), H, rhs, sc, cond]

Active == {i \in 1..Len(dvs) : dvs[i].active}
TDv == Is("dv") /\ dvs' = Append(dvs, DvOf(Line)) /\ raw' = Append(raw, Line.x) /\ UNCHANGED <<ets, sol, fail>>
\* the square root of the weight, as the error term holds it
TEt == /\ Is("et")
       /\ LET e == EtOf(Line) IN ets' = Append(ets, [dim |-> e.dim, W |-> e.W, mk |-> e.mk, mp |-> e.mp, bound |-> e.bound, ids |-> e.ids,
                                                     c |-> e.c, A |-> e.A, Q |-> e.Q, p |-> e.p, L |-> Mat(Line.L)])
       /\ UNCHANGED <<dvs, raw, sol, fail>>
TSet == Is("state") /\ raw' = Line.x /\ UNCHANGED <<dvs, ets, sol, fail>>

RECURSIVE RowBase(_)
RowBase(i) == IF i = 1 THEN 0 ELSE RowBase(i - 1) + ets[i - 1].dim
NRow == RowBase(Len(ets) + 1)

SqrtW(et, x, m) == IF m THEN Force(RSqrt(RMax(R(0), W1(et, x, TRUE)), 100)) ELSE R(1)
\* the weighted, negated errors, stacked
Stacked(x, m) == Force(VCat([i \in 1..Len(ets) |-> VScale(RNeg(SqrtW(ets[i], x, m)), MTV(ets[i].L, Residual(ets[i], x)))]))
\* the weighted Jacobian, stacked
RECURSIVE RowsTo(_, _, _)
RowsTo(x, m, i) == IF i = 0 THEN <<>>
                   ELSE RowsTo(x, m, i - 1) \o MScale(SqrtW(ets[i], x, m), MM(MT(ets[i].L), FullJac(ets[i], dvs, x, TRUE)))
StackedJac(x, m) == Force(RowsTo(x, m, Len(ets)))
RECURSIVE ErrScaleTo(_, _)
ErrScaleTo(x, i) == IF i = 0 THEN R(1) ELSE RAdd(ErrScaleTo(x, i - 1), RMul(RMul(R(3), RMul(WeightMax(ets[i].mk, ets[i].mp), RAdd(R(1), MMax(ets[i].L)))), Magnitude(ets[i], x)))
ErrScale(x) == ErrScaleTo(x, Len(ets))

TNumber == /\ Is("number")
           /\ Chk("rows of the error terms", \A i \in 1..Len(ets) : Line.rb[i] = RowBase(i))
           /\ UNCHANGED <<dvs, ets, raw, sol, fail>>
TNew == /\ Is("new")
        /\ Chk("rows", Line.rows = NRow)
        /\ Chk("columns", Line.cols = NCol(dvs))
        /\ sol' = (Line.s :> [k |-> Line.k, diag |-> Line.diag, m |-> FALSE, e |-> <<>>, at |-> <<>>, H |-> <<>>, rhs |-> <<>>, sc |-> R(1),
                              cond |-> VZero(NCol(dvs))]) @@ sol
        /\ UNCHANGED <<dvs, ets, raw, fail>>
TFails == /\ Is("fails")
          /\ fail' = IF Line.how = 0 THEN [k \in (DOMAIN fail) \ {Line.k} |-> fail[k]] ELSE (Line.k :> Line.how) @@ fail
          /\ UNCHANGED <<dvs, ets, raw, sol>>
Cannot(how) == \E k \in DOMAIN fail : fail[k] = how
\* whatever the number of threads, a term that cannot be evaluated is the caller's to know; nothing of it lasts
TRefused == /\ Is("refused")
            /\ Chk("refused for no reason", Cannot(IF Line.what = "errors" THEN 1 ELSE 2))
            /\ sol' = [sol EXCEPT ![Line.s] = IF Line.what = "errors" THEN [@ EXCEPT !.e = <<>>] ELSE [@ EXCEPT !.at = <<>>, !.H = <<>>]]
            /\ UNCHANGED <<dvs, ets, raw, fail>>
TErrors == /\ Is("errors")
           /\ Chk("a failure was not reported", ~Cannot(1))
           /\ LET x == Xs(Line.x) IN
              /\ Chk("the state is the one that was set", Line.x = raw)
              /\ Chk("the cost", NearCost(Line.J, Cost(ets, x)))
              /\ Chk("the weighted errors", LVNear(Line.e, Stacked(x, Line.m), ErrScale(x), 38))
           /\ sol' = [sol EXCEPT ![Line.s] = [@ EXCEPT !.e = raw, !.m = Line.m]]
           /\ UNCHANGED <<dvs, ets, raw, fail>>
JScale(x) == MMax(StackedJac(x, FALSE))
\* only the upper triangle is promised
UpperNear(obs, H, sc, k) == /\ Len(obs) = Len(H) /\ AllFiniteM(obs)
                            /\ \A i \in 1..Len(H) : \A j \in 1..Len(H) : Near(RX(obs[i][j]), H[i][j], sc, k) \/
                                                                        (i > j /\ RSign(RX(obs[i][j])) = 0)
TBuild ==
  /\ Is("build")
  /\ LET s == sol[Line.s]
         x == Xs(raw)
         J == StackedJac(x, Line.m)
         H == Hessian(dvs, ets, x, Line.m)
         rhs == Rhs(dvs, ets, x, Line.m)
         sc == RhsScale(dvs, ets, x)
         js == RAdd(R(1), JScale(x))
         hs == RMul(R(NRow), RMul(js, js))
     IN  /\ Chk("a failure was not reported", ~Cannot(2))
         /\ Chk("script: errors first", s.e = raw /\ s.m = Line.m)
         /\ Chk("right-hand side", LVNear(Line.rhs, rhs, sc, 38))
         /\ Chk("curvature along the right-hand side",
                LNear(Line.rr, RDot(rhs, MV(H, rhs)), RMul(RMul(R(NCol(dvs) * NCol(dvs)), hs), RMul(sc, sc)), 36))
         /\ Chk("Jacobian", Line.hasJ => LMNear(Line.J, J, js, 38))
         /\ Chk("transposed Jacobian", Has(Line, "Jt") => LMNear(Line.Jt, MT(J), js, 38))
         /\ Chk("Hessian", Line.hasH => UpperNear(Line.H, H, hs, 38))
         /\ Chk("copy of the Hessian", Has(Line, "Hc") => UpperNear(Line.Hc, H, hs, 38))
         /\ sol' = [sol EXCEPT ![Line.s] = [@ EXCEPT !.at = raw, !.H = H, !.rhs = rhs, !.sc = sc]]
  /\ UNCHANGED <<dvs, ets, raw, fail>>
TCond == /\ Is("cond")
         /\ LET n == NCol(dvs)
                d == IF Len(Line.d) = 1 THEN [i \in 1..n |-> RX(Line.d[1])] ELSE Vec(Line.d)
            IN  /\ Chk("a conditioner of the wrong size is refused", Line.exc = (Len(d) # n))
                /\ sol' = IF Line.exc THEN sol ELSE [sol EXCEPT ![Line.s] = [@ EXCEPT !.cond = Force(d)]]
         /\ UNCHANGED <<dvs, ets, raw, fail>>
System(s) == IF s.diag THEN AddDiag(s.H, s.cond) ELSE s.H
HSc(s) == LET js == RAdd(R(1), JScale(Xs(s.at))) IN RMul(R(NRow), RMul(js, js))
TSolve ==
  /\ Is("solve")
  /\ LET s == sol[Line.s]
         A == System(s)
         singular == NearlySingular(A, 36)
     IN  /\ Chk("a regular system is solved", Line.ok \/ singular)
         /\ Chk("the solution is finite", (Line.ok /\ ~singular) => AllFinite(Line.dx))
         /\ Chk("the solution satisfies the normal equations",
                (Line.ok /\ AllFinite(Line.dx) /\ ~singular) => Solves(A, s.rhs, Vec(Line.dx), s.sc, 26))
         /\ Chk("the right-hand side is left alone", LVNear(Line.rhs, s.rhs, s.sc, 38))
         /\ Chk("the Hessian is left alone", Has(Line, "Hc") => UpperNear(Line.Hc, s.H, RAdd(HSc(s), VSq(s.cond)), 38))
  /\ UNCHANGED <<dvs, ets, raw, sol, fail>>
TCov ==
  /\ Is("cov")
  /\ LET s == sol[Line.s]
         A == System(s)
         n == Len(A)
         P == Mat(Line.P)
         E == MM(A, P)
     IN  IF NearlySingular(A, 24) THEN TRUE
         ELSE /\ Chk("the covariance is finite", ~Line.exc /\ AllFiniteM(Line.P) /\ Len(P) = n)
              /\ Chk("the covariance is the inverse", MNear(E, MId(n), RMul(R(n), RMul(MMax(A), MMax(P))), 22))
              /\ Chk("the Hessian is left alone", UpperNear(Line.Hc, s.H, RAdd(HSc(s), VSq(s.cond)), 38))
  /\ UNCHANGED <<dvs, ets, raw, sol, fail>>
\* R'R of the QR factorisation (of the columns in their order) is J'J
TQr ==
  /\ Is("qr")
  /\ LET s == sol[Line.s]
         n == Len(s.H)
         T == Mat(Line.R)
         G == MM(MT(T), T)
     IN  IF NearlySingular(s.H, 30) THEN TRUE
         ELSE /\ Chk("rank", Line.rank = n)
              /\ Chk("permutation", {Line.p[i] : i \in 1..n} = 0..(n - 1))
              /\ Chk("R'R is the Hessian", \A i \in 1..n : \A j \in 1..n :
                       Near(G[i][j], s.H[i][j], HSc(s), 30))
              /\ Chk("R is upper triangular", \A i \in 1..Len(T) : \A j \in 1..n : i > j => RSign(T[i][j]) = 0)
  /\ UNCHANGED <<dvs, ets, raw, sol, fail>>

Init == l = 1 /\ dvs = <<>> /\ ets = <<>> /\ raw = <<>> /\ sol = <<>> /\ fail = <<>>
TBegin == Is("begin") /\ dvs' = <<>> /\ ets' = <<>> /\ raw' = <<>> /\ sol' = <<>> /\ fail' = <<>>
Next == Step /\ (TBegin \/ TDv \/ TEt \/ TSet \/ TNumber \/ TNew \/ TFails \/ TRefused \/ TErrors \/ TBuild \/ TCond \/ TSolve \/ TCov \/ TQr)
=============================================================================
