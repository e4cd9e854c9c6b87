------------------------------- MODULE ImuTrace -------------------------------
(* The error terms of the inertial sensors over expression graphs: measured    *)
(* against the formula of the sensor model, which is evaluated and             *)
(* differentiated exactly as in ExprTrace.                                     *)
EXTENDS ExprTrace
VARIABLE terms
varsI == <<l, dv, nd, terms>>

(* values of several nodes at once *)
Many(a, dvs) ==
  LET need == UNION {nd[a[j]].sub \cup {a[j]} : j \in 1..Len(a)}
      RECURSIVE E(_)
      E(k) == IF k = 0 THEN <<>>
              ELSE LET p == E(k - 1)
                       n == nd[k]
                       v == IF k \notin need THEN R(0) ELSE Rounded(Kind(n), Node(n, [j \in 1..Len(n.a) |-> p[n.a[j]]], dvs))
                   IN  Append(p, Force(v))
      all == E(Len(nd))
  IN  [j \in 1..Len(a) |-> all[a[j]]]
Lever(om, al, r) == VAdd(Cross(al, r), Cross(om, Cross(om, r)))
Axis(i, v) == [j \in 1..3 |-> IF j = i THEN v[j] ELSE R(0)]
(* What the sensor should have measured.  C_b_w: world to body; C_i_b: body to *)
(* sensor; M: scale and misalignment; Ma: effect of acceleration on a gyro.    *)
Model(k, X) ==
  CASE k = "euclidean" -> X[1]
    [] k = "accel" -> VAdd(MV(X[1], VSub(X[2], X[4])), X[3])            \* C_b_w (a - g) + bias
    [] k = "accelsize" ->                                                \* every axis at its own lever arm
         LET f == VAdd(MV(X[2], VSub(X[3], X[11])),
                       VAdd(Axis(1, Lever(X[4], X[5], X[7])), VAdd(Axis(2, Lever(X[4], X[5], X[8])), Axis(3, Lever(X[4], X[5], X[9])))))
         IN  VAdd(MV(X[1], MV(X[6], f)), X[10])
    [] k = "gyro" -> VAdd(X[1], X[2])
    [] k = "gyronobias" -> X[1]
    [] k = "gyrosize" ->
         LET f == VAdd(MV(X[3], VSub(X[4], X[10])), Lever(X[5], X[6], X[8]))
         IN  VAdd(MV(X[1], VAdd(MV(X[7], X[5]), MV(X[2], MV(X[7], f)))), X[9])
TMake == /\ Is("kmake")
         /\ Chk("the variables of the error term", {Line.dvs[j] : j \in 1..Len(Line.dvs)} = UNION {nd[Line.a[j]].deps : j \in 1..Len(Line.a)})
         /\ Chk("three rows", Line.dim = 3)
         /\ terms' = Append(terms, [k |-> Line.k, a |-> Line.a, x |-> Vec(Line.x), r |-> Mat(Line.R)])
         /\ UNCHANGED <<dv, nd>>
Biggest(X, a) == LET RECURSIVE M(_)
                     M(j) == IF j = 0 THEN R(1) ELSE RMax(AbsMax(Kind(nd[a[j]]), X[j]), M(j - 1))
                 IN  M(Len(a))
TKerr == /\ Is("kerr")
         /\ LET t == terms[Line.i]
                X0 == Many(t.a, dv)
                live == UNION {Live(t.a[j]) : j \in 1..Len(t.a)}
                F(dvs) == VSub(Model(t.k, Many(t.a, dvs)), t.x)
            IN \E e \in {Force(F(dv))} : \E J \in {Force([d \in live |-> Deriv(F, "e", d, e)])} :
               LET b == Biggest(X0, t.a)
                   b2 == RMul(b, b)
                   s == RMul(RMul(b2, b2), JMax(J))
               IN /\ Chk("prediction minus measurement", LVNear(Line.e, e, s, K))
                  /\ Chk("its square weighed", LNear(Line.c, RDot(e, MV(t.r, e)), RMul(RMul(s, s), MMax(t.r)), K))
                  /\ Chk("the prediction", Line.p = <<>> \/ LVNear(Line.p, VAdd(e, t.x), s, K))
                  /\ Chk("the measurement", Line.m = <<>> \/ LVNear(Line.m, t.x, R(1), 52))
                  /\ Chk("evaluating Jacobians changes nothing", Line.same)
                  /\ JacsOk("the Jacobian of the error", Line.J, J, s)
         /\ UNCHANGED <<dv, nd, terms>>
InitI == Init /\ terms = <<>>
NextI == \/ Step /\ (TMake \/ TKerr)
         \/ Is("begin") /\ Next /\ terms' = <<>>
         \/ ~Is("begin") /\ ~Is("kmake") /\ ~Is("kerr") /\ Next /\ UNCHANGED terms
===============================================================================
