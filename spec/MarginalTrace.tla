---------------------------- MODULE MarginalTrace ----------------------------
(***************************************************************************)
(* Marginalisations by the real code, and the priors they yield at the     *)
(* linearisation point and after updates, against Marginal.                *)
(***************************************************************************)
EXTENDS LeastSquares, Marginal, Trc, FiniteSets

VARIABLES dvs, ets, raw, q, pri, act
vars == <<l, dvs, ets, raw, q, pri, act>>
Init == l = 1 /\ act = <<>> /\ dvs = <<>> /\ ets = <<>> /\ raw = <<>> /\ q = <<>> /\ pri = <<>>
TBegin == Is("begin") /\ act' = <<>> /\ dvs' = <<>> /\ ets' = <<>> /\ raw' = <<>> /\ q' = <<>> /\ pri' = <<>>
TDv == Is("dv") /\ dvs' = Append(dvs, DvOf(Line)) /\ raw' = Append(raw, Line.x) /\ q' = Append(q, R(0)) /\ act' = Append(act, Line.active) /\ UNCHANGED <<ets, pri>>
TEt == Is("et") /\ ets' = Append(ets, EtOf(Line)) /\ UNCHANGED <<dvs, raw, q, pri, act>>
TCurve == Is("curve") /\ q' = [q EXCEPT ![Line.v + 1] = RX(Line.q)] /\ UNCHANGED <<dvs, ets, raw, pri, act>>
TAct == Is("act") /\ act' = [act EXCEPT ![Line.v + 1] = Line.a] /\ UNCHANGED <<dvs, ets, raw, q, pri>>
TState == Is("state") /\ raw' = Line.x /\ UNCHANGED <<dvs, ets, q, pri, act>>

\* the variables in the order given, unscaled: a prior is in the variables' own units
Ord(o) == [i \in 1..Len(o) |-> [n |-> dvs[o[i] + 1].n, active |-> TRUE, s |-> R(1)]]
Pos(o, id) == CHOOSE i \in 1..Len(o) : o[i] + 1 = id
Terms(o, t) == [i \in 1..Len(t) |-> [ets[t[i] + 1] EXCEPT !.ids = [k \in DOMAIN @ |-> Pos(o, @[k])]]]
At(o, x) == [i \in 1..Len(o) |-> Vec(x[o[i] + 1])]
RECURSIVE SumN(_, _)
SumN(o, k) == IF k = 0 THEN 0 ELSE SumN(o, k - 1) + dvs[o[k] + 1].n
Leading(H, k) == [i \in 1..k |-> SubSeq(H[i], 1, k)]
TMarg ==
  /\ Is("marg")
  /\ LET o == Line.order
         tot == SumN(o, Len(o))
         rem == SumN(o, Line.k)
         x == At(o, raw)
         T == Terms(o, Line.terms)
         rows == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + T[i].dim IN S(Len(T))
         H == Hessian(Ord(o), T, x, Line.m)
         g == Rhs(Ord(o), T, x, Line.m)
         sc == RAdd(R(1), RAdd(MMax(H), RhsScale(Ord(o), T, x)))
         loose == rem > 0 /\ NearlySingular(Leading(H, rem), 16)
         s == IF loose THEN [H |-> H, g |-> g] ELSE Elim(H, g, rem, 200)
     IN  /\ Chk("refused only when there are fewer equations than unknowns", Line.exc => rows < tot)
         /\ Chk("an underdetermined system is refused", (rows < tot) => Line.exc)
         /\ IF Line.exc THEN UNCHANGED pri ELSE
              /\ Chk("numbering of variables and error terms is left alone", Line.kept)
              /\ Chk("the remaining variables, in order", Line.ids = SubSeq(o, Line.k + 1, Len(o)))
              /\ Chk("the state", Line.x = raw)
              /\ Chk("top variables", Line.topv = SubSeq(o, 1, Cardinality({i \in 1..Len(o) : SumN(o, i - 1) < Line.top})))
              /\ Chk("covariance", (Line.top > 0 /\ ~NearlySingular(H, 16)) =>
                       LET C == InvSpd(H, 200)
                           K == Leading(C, Line.top)
                       IN  LMNear(Line.cov, K, RMul(R(8), RMul(RMul(MMax(C), MMax(C)), MMax(H))), 28))
              /\ pri' = (Line.p :> [ids |-> Line.ids, H |-> s.H, g |-> s.g, x0 |-> raw, e0 |-> VSq(Vec(Line.e)), sc |-> sc, loose |-> loose]) @@ pri
  /\ UNCHANGED <<dvs, ets, raw, q, act>>
\* what the prior says at the present state
Prior(p, x) ==
  LET d(i) == VSub(Vec(x[p.ids[i] + 1]), Vec(p.x0[p.ids[i] + 1]))
      md(i) == [k \in 1..Len(d(i)) |-> RAdd(d(i)[k], RMul(q[p.ids[i] + 1], RMul(d(i)[k], d(i)[k])))]
      D == VCat([i \in 1..Len(p.ids) |-> md(i)])
      M == VCat([i \in 1..Len(p.ids) |-> [k \in 1..Len(d(i)) |-> RAdd(R(1), RMul(RMul(R(2), q[p.ids[i] + 1]), d(i)[k]))]])
      J == LET RECURSIVE F(_)
               F(i) == IF i = 0 THEN [r \in 1..Line.dim |-> <<>>] ELSE HCat(F(i - 1), Mat(Line.js[i]))
           IN  Force(F(Len(p.ids)))
      e == Vec(Line.e)
      n == Len(D)
      \* only active variables have columns
      on == VCat([i \in 1..Len(p.ids) |-> [k \in 1..Len(d(i)) |-> act[p.ids[i] + 1]]])
      c == SelectSeq([i \in 1..n |-> i], LAMBDA i : on[i])
      big == RMul(RMul(R(64 * n), p.sc), RMul(RAdd(R(1), VMax(D)), RMul(RAdd(R(1), VMax(M)), RAdd(R(1), VMax(D)))))
      big2 == RMul(big, RAdd(R(1), VMax(M)))
  IN  /\ Chk("the same variables", Line.ids = p.ids)
      /\ Chk("columns of the active variables", NCols(J) = Len(c))
      /\ Chk("finite", AllFinite(Line.e) /\ \A i \in 1..Len(Line.js) : AllFiniteM(Line.js[i]))
      /\ Chk("information", MNear(MM(MT(J), J), Force([i \in 1..Len(c) |-> [j \in 1..Len(c) |-> RMul(M[c[i]], RMul(p.H[c[i]][c[j]], M[c[j]]))]]), big2, 26))
      /\ Chk("gradient", VNear(MTV(J, e), Force([i \in 1..Len(c) |-> RMul(M[c[i]], RSub(RDot(p.H[c[i]], D), p.g[c[i]]))]), big, 26))
      /\ Chk("change of the cost", Near(RSub(VSq(e), p.e0), Quad(p.H, p.g, D), big, 26))
      /\ Chk("the cost is the squared error", LNear(Line.J, VSq(e), RAdd(R(1), VSq(e)), 40))
TPrior == /\ Is("prior")
          /\ Chk("the state", Line.x = raw)
          /\ IF pri[Line.p].loose THEN TRUE ELSE Prior(pri[Line.p], Line.x)
          /\ UNCHANGED <<dvs, ets, raw, q, pri, act>>
TNone == Is("none") /\ Chk("no prior after a refusal only", Line.p \notin DOMAIN pri) /\ UNCHANGED <<dvs, ets, raw, q, pri, act>>
Next == Step /\ (TBegin \/ TDv \/ TEt \/ TCurve \/ TAct \/ TState \/ TMarg \/ TPrior \/ TNone)
=============================================================================
