--------------------------- MODULE OptimizerTrace ---------------------------
(***************************************************************************)
(* Runs of Optimizer2 and Optimizer on polynomial problems against the     *)
(* design Optimizer.tla, with exact costs.  Between two calls of the       *)
(* trust-region policy the optimizer applies the step, and keeps it or     *)
(* undoes it; the call records the state it starts from.                   *)
(***************************************************************************)
EXTENDS LeastSquares, Trc, FiniteSets

VARIABLES dvs, ets, raw, o
\* raw: the states as logged (bitwise).  o: the run in progress.

vars == <<l, dvs, ets, raw, o>>
Idle == [on |-> FALSE]

\* the state after the step dx from x, exactly
Moved(x, dx) == Force([i \in 1..Len(x) |->
                   IF dvs[i].active
                   THEN [j \in 1..Len(x[i]) |-> RAdd(x[i][j], RMul(dvs[i].s, dx[ColBase(dvs, i) + j]))]
                   ELSE x[i]])
XScale(x, dx) == RAdd(VMax(VCat(x)), RMul(VMax(dx), VMax([i \in 1..Len(dvs) |-> dvs[i].s])))
NearX(x, y, s) == \A i \in 1..Len(x) : VNearRel(x[i], y[i], RMax(s, RPow2(-60)), 50)
InactiveSame(a, b) == \A i \in 1..Len(dvs) : dvs[i].active \/ a[i] = b[i]

NoNumber == <<"nan">>
Reverting(r) == r.p # "gn"
\* clearly a < b, allowing for the rounding of both
Clear(a, b, tol) == RLt(RAdd(a, tol), b)

\* What became of the pending step, given the state afterwards (logged: st).
\* kept: the state moved; otherwise it must be exactly the old one.
Resolve(r, st, kept) ==
  IF r.pend = <<>> THEN
    IF Chk("nothing moved without a step", st = r.x) THEN r ELSE [r EXCEPT !.bad = TRUE]
  ELSE IF r.pend = NoNumber THEN
    \* a singular system, or a gradient of zero; after a failure of the linear solver the loop
    \* goes on past convergence, where the ratio that drives the damping is 0/0
    IF Chk("a step that is not a number is undone", ~kept /\ st = r.x)
    THEN [r EXCEPT !.pend = <<>>, !.it = @ + 1, !.fails = @ + 1, !.pf = TRUE, !.dJ = NanCost, !.nodx = TRUE]
    ELSE [r EXCEPT !.bad = TRUE]
  ELSE
    LET x0 == Xs(r.x)
        x1 == Moved(x0, r.pend)
        xa == Xs(st)
        c1 == IF kept THEN Cost(ets, xa) ELSE Cost(ets, x1)
        ok == IF kept
              THEN /\ Chk("the step is applied to every active variable", NearX(xa, x1, XScale(x0, r.pend)))
                   /\ Chk("inactive variables stay", InactiveSame(st, r.x))
                   /\ Chk("a step that raises the cost is not kept",
                          ~Reverting(r) \/ (~c1.nan /\ ~Clear(r.best.v, c1.v, RAdd(CostTol(c1), CostTol(r.best)))))
              ELSE /\ Chk("a rejected step is undone exactly", st = r.x)
                   /\ Chk("only steps that raise the cost are undone",
                          c1.nan \/ ~Clear(c1.v, r.best.v, RAdd(CostTol(c1), CostTol(r.best))))
    IN  IF ok THEN [r EXCEPT !.pend = <<>>, !.it = @ + 1, !.x = st,
                             !.fails = IF kept THEN @ ELSE @ + 1,
                             !.best = IF kept THEN c1 ELSE @,
                             !.pf = IF Reverting(r) THEN ~kept ELSE @,
                             !.dX = VMax(r.pend), !.nodx = FALSE,
                             !.dJ = IF c1.nan THEN NanCost ELSE [nan |-> FALSE, v |-> RSub(r.best.v, c1.v), s |-> RAdd(r.best.s, c1.s)]]
        ELSE [r EXCEPT !.bad = TRUE]

\* whether the loop must go on, must stop, or (a comparison within rounding) may do either
Limits(r) == r.it < r.maxit /\ r.fails < r.maxit
Moving(r) == ~r.nodx /\ RLt(r.cX, r.dX)
DjDecided(r) == r.dJ.nan \/ RLt(CostTol(r.dJ), RAbs(RSub(RAbs(r.dJ.v), r.cJ)))
Falling(r) == r.dJ.nan \/ RLt(r.cJ, RAbs(r.dJ.v))
MustGoOn(r) == Limits(r) /\ (r.lsf \/ (Moving(r) /\ DjDecided(r) /\ Falling(r) /\ ~r.dJ.nan))
MustStop(r) == ~Limits(r) \/ (~r.lsf /\ (~Moving(r) \/ (DjDecided(r) /\ ~Falling(r))))

TDv == Is("dv") /\ dvs' = Append(dvs, DvOf(Line)) /\ raw' = Append(raw, Line.x) /\ UNCHANGED <<ets, o>>
TEt == Is("et") /\ ets' = Append(ets, EtOf(Line)) /\ UNCHANGED <<dvs, raw, o>>
TSet == Is("state") /\ raw' = Line.x /\ UNCHANGED <<dvs, ets, o>>

TStart == /\ Is("optstart")
          /\ ~o.on
          /\ Chk("starts from the state that was set", Line.x = raw)
          /\ o' = [on |-> TRUE, bad |-> FALSE, p |-> Line.p, k |-> Line.k, maxit |-> Line.maxit, cJ |-> RX(Line.cJ), cX |-> RX(Line.cX),
                   x |-> Line.x, start |-> Cost(ets, Xs(Line.x)), best |-> Cost(ets, Xs(Line.x)), it |-> 0, fails |-> 0, pf |-> FALSE, lsf |-> FALSE,
                   pend |-> <<>>, dX |-> RAdd(RX(Line.cX), R(1)), dJ |-> [nan |-> FALSE, v |-> RAdd(RX(Line.cJ), R(1)), s |-> R(0)], nodx |-> FALSE, lost |-> FALSE]
          /\ UNCHANGED <<dvs, ets, raw>>

UsesDiag(r) == r.p = "lm" /\ r.k # "sparse_qr"
\* a linear solve inside the run: the normal equations at the state the system was built at
TLin == /\ Is("lin")
        /\ o.on
        /\ (Line.ok /\ ~o.lost) =>
             LET x == Xs(Line.at)
                 sc == RhsScale(dvs, ets, x)
                 rhs == Rhs(dvs, ets, x, TRUE)
                 H == Hessian(dvs, ets, x, TRUE)
                 HD == IF UsesDiag(o) THEN AddDiag(H, Vec(Line.cond)) ELSE H
                 \* a QR decomposition of the stacked [J; D] rounds relative to |D| |e|
                 scx == IF UsesDiag(o) /\ o.k = "dense_qr" THEN RMul(sc, RAdd(R(1), RMul(RPow2(-18), VMax(Vec(Line.cond))))) ELSE sc
             IN  IF UsesDiag(o) /\ ~AllFinite(Line.cond)
                 THEN Chk("damping that is not a number", o.lsf)
                 ELSE IF ~AllFinite(Line.dx)
                 THEN Chk("the solution of a regular system is finite",
                          NearlySingular(HD, 30) \/ (UsesDiag(o) /\ RLt(RPow2(510), VMax(Vec(Line.cond)))))   \* its square overflows
                 ELSE /\ Chk("right-hand side", LVNear(Line.rhs, rhs, sc, 40))
                      /\ Chk("the step solves the normal equations", Solves(HD, rhs, Vec(Line.dx), scx, 28))
        /\ UNCHANGED <<dvs, ets, raw, o>>
TSolveFail == Is("solvefail") /\ UNCHANGED <<dvs, ets, raw, o>>

\* the policy was asked for a step
TStep == /\ Is("step")
         /\ o.on
         /\ IF o.lost THEN UNCHANGED o ELSE
            LET kept == IF o.pend = <<>> THEN FALSE ELSE IF Reverting(o) THEN ~Line.pf ELSE TRUE
                r == Resolve(o, Line.x, kept)
            IN  /\ ~r.bad
                /\ Chk("previous iteration failed", Line.pf = r.pf)
                /\ Chk("went on although it had to stop", ~MustStop(r))
                /\ Chk("the cost handed to the policy", (kept \/ (o.pend = <<>> /\ ~o.lsf)) => NearCost(Line.J, r.best))
                /\ IF Line.ok
                   THEN o' = [r EXCEPT !.pend = IF AllFinite(Line.dx) THEN Vec(Line.dx) ELSE NoNumber,
                                       !.lost = ~Reverting(r) /\ ~AllFinite(Line.dx)]
                   ELSE o' = [r EXCEPT !.fails = @ + 1, !.pf = TRUE, !.lsf = TRUE]
         /\ UNCHANGED <<dvs, ets, raw>>

Linear == \A i \in 1..Len(ets) : /\ \A r \in 1..ets[i].dim : RSign(ets[i].p[r]) = 0 /\ \A k \in 1..Len(ets[i].Q[r]) : RSign(ets[i].Q[r][k]) = 0
                                 /\ ets[i].mk = "none"
\* the gradient vanishes
Minimal(st) == LET x == Xs(st) IN RLe(VMax(Rhs(dvs, ets, x, TRUE)), RMul(Eps(24), RhsScale(dvs, ets, x)))

TEnd == /\ Is("optend")
        /\ o.on
        /\ Chk("no exception", ~Line.exc)
        /\ IF o.lost THEN TRUE ELSE
           LET kept == o.pend # <<>> /\ (~Reverting(o) \/ Line.fails = o.fails)
               r == Resolve(o, Line.x, kept)
           IN  /\ ~r.bad
               /\ Chk("stopped too early", ~MustGoOn(r))
               /\ Chk("iteration count", Line.it = r.it /\ r.it <= r.maxit)
               /\ Chk("failed iteration count", Line.fails = r.fails /\ r.fails <= r.maxit)
               /\ Chk("initial cost", NearCost(Line.JStart, r.start))
               /\ Chk("final cost", NearCost(Line.JFinal, r.best))
               /\ Chk("final cost is the cost of the final state", NearCost(Line.JFinal, Cost(ets, Xs(Line.x))))
               /\ Chk("the cost never ends higher", ~Reverting(r) \/ RLe(RX(Line.JFinal), RX(Line.JStart)))
               /\ Chk("solver failure reported", Line.lsf = r.lsf)
               /\ Chk("last step size", r.nodx \/ LNear(Line.dX, r.dX, R(1), 50))
               /\ Chk("last cost change", r.dJ.nan \/ (RIsFinite(Line.dJ) /\ RLe(RAbs(RSub(RX(Line.dJ), r.dJ.v)), RAdd(CostTol(r.dJ), CostTol(r.best)))))
               /\ Chk("inactive variables are not touched", \A i \in 1..Len(dvs) : dvs[i].active \/ Line.updates[i] = 0)
               /\ Chk("all active variables take part", Line.ndv = Cardinality({i \in 1..Len(dvs) : dvs[i].active}))
               /\ Chk("a linear problem is minimised", (Linear /\ r.p = "gn" /\ ~r.lsf /\ r.it > 0) => Minimal(Line.x))
        /\ raw' = Line.x /\ o' = Idle
        /\ UNCHANGED <<dvs, ets>>

\* The older Optimizer: only the error terms that touch an active variable take part.
Touching == {i \in 1..Len(ets) : \E k \in 1..Len(ets[i].ids) : dvs[ets[i].ids[k]].active}
TouchingEts == LET RECURSIVE F(_)
                   F(i) == IF i = 0 THEN <<>> ELSE IF i \in Touching THEN Append(F(i - 1), ets[i]) ELSE F(i - 1)
               IN  F(Len(ets))
TOpt1 == /\ Is("opt1")
         /\ LET E == TouchingEts
                c0 == Cost(E, Xs(Line.x0))
                c1 == Cost(E, Xs(Line.x))
            IN  /\ Chk("no exception", ~Line.exc)
                /\ Chk("starts from the state that was set", Line.x0 = raw)
                /\ Chk("initial cost", NearCost(Line.JStart, c0))
                /\ Chk("final cost is the cost of the final state", ~c1.nan /\ NearCost(Line.JFinal, c1))
                /\ Chk("the cost never ends higher", Line.how = "gn" \/ RLe(RX(Line.JFinal), RX(Line.JStart)))
                /\ Chk("iteration limit", Line.it <= Line.maxit)
                /\ Chk("failed iterations", Line.fails <= Line.it)
                /\ Chk("inactive variables are not touched", InactiveSame(Line.x, Line.x0) /\ \A i \in 1..Len(dvs) : dvs[i].active \/ Line.updates[i] = 0)
                /\ Chk("one revert per failed step", \A i \in 1..Len(dvs) : (dvs[i].active /\ Line.how = "lm") => Line.reverts[i] <= Line.fails)
                /\ Chk("a linear problem is minimised", (Linear /\ Line.how = "gn" /\ Line.it > 0) => Minimal(Line.x))
         /\ raw' = Line.x
         /\ UNCHANGED <<dvs, ets, o>>

Init == l = 1 /\ dvs = <<>> /\ ets = <<>> /\ raw = <<>> /\ o = Idle
TBegin == Is("begin") /\ ~o.on /\ dvs' = <<>> /\ ets' = <<>> /\ raw' = <<>> /\ o' = Idle
Next == Step /\ (TBegin \/ TDv \/ TEt \/ TSet \/ TStart \/ TLin \/ TSolveFail \/ TStep \/ TEnd \/ TOpt1)
=============================================================================
