------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Derivatives of rotations, transformations and homogeneous points, and   *)
(* the propagation of covariances (sm_kinematics), over the rationals.     *)
(***************************************************************************)
EXTENDS Rotations

B == 170
H == 56
Hh == RPow2(-H)
Unit(i, n) == [j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)]
Norm(v) == RSqrt(VSq(v), B)
Quad(J, U) == MM(MM(J, U), MT(J))

\* derivatives: central differences of the definition, so close that their error is far below that of double arithmetic
ExpJ(a) == MT([i \in 1..3 |->
  LET e == VScale(Hh, Unit(i, 3))
  IN  VScale(RDiv(R(1), RMul(R(2), Hh)), VSub(A2Q(VAdd(a, e), B), A2Q(VSub(a, e), B)))])
P2C(kind, p) ==
  CASE kind = "ypr" -> YPR2C(p, B)
    [] kind = "zyx" -> YPR2C(VNeg(p), B)
    [] kind = "zxy" -> ZXY2C(p, B)
    [] kind = "rod" -> MRnd(Rod2C(p), B)
    [] kind = "rv" -> A2C(p, B)
\* dC = -[S dp]x C
SOf(kind, p) ==
  LET C == P2C(kind, p)
  IN  MT(Force([i \in 1..3 |->
        LET e == VScale(Hh, Unit(i, 3))
        IN  VRnd(VecOfChange(MScale(RDiv(R(1), RMul(R(2), Hh)), MSub(P2C(kind, VAdd(p, e)), P2C(kind, VSub(p, e)))), C), 110)]))
H2 == RPow2(-26)
AvJ(kind, p, pd) ==
  LET cols == Force([i \in 1..3 |->
        LET e == VScale(H2, Unit(i, 3))
        IN  VScale(RDiv(R(1), RMul(R(2), H2)), VSub(MV(SOf(kind, VAdd(p, e)), pd), MV(SOf(kind, VSub(p, e)), pd)))])
  IN  HCat(MT(cols), SOf(kind, p))
\* how much the parameters of a rotation amplify its rounding errors
Cond(kind, p) ==
  CASE kind \in {"ypr", "zyx", "zxy"} -> RDiv(R(4), RMax(RPow2(-30), RAbs(RCos(p[2], 60))))
    [] kind = "rod" -> RAdd(R(8), RMul(R(8), VSq(p)))
    [] OTHER -> R(4)

QJac(q) == MT([i \in 1..3 |-> QPlus(VScale(RPow2(-1), Unit(i, 3)) \o <<R(0)>>, q)])
BoxP(t) == LET T == CrossM(SubSeq(t, 4, 6)) IN [i \in 1..4 |-> IF i = 4 THEN VZero(4) ELSE T[i] \o <<RNeg(t[i])>>]
BoxM(p) == MT([i \in 1..6 |-> VNeg(MV(BoxP(Unit(i, 6)), p))])
SMat(t) == LET T == MScale(R(-1), CrossM(t)) IN
  [i \in 1..6 |-> IF i <= 3 THEN Unit(i, 3) \o T[i] ELSE Unit(i, 6)]
HPlus(p) == [i \in 1..4 |-> IF i = 4 THEN <<R(0), R(0), R(0), p[4]>> ELSE VScale(p[4], Unit(i, 3)) \o <<p[i]>>]
HMinus(p) == [i \in 1..4 |-> IF i = 4 THEN <<R(0), R(0), R(0), p[4]>> ELSE VScale(p[4], Unit(i, 3)) \o <<RNeg(p[i])>>]
NormJ(v) ==
  LET n == Norm(v)
      g == RDiv(R(1), n)
  IN  Force([i \in 1..Len(v) |-> [j \in 1..Len(v) |->
        RRnd(RMul(g, RSub(IF i = j THEN R(1) ELSE R(0), RDiv(RMul(v[i], v[j]), VSq(v)))), B)]])
Normed(v) == LET n == Norm(v) IN VRnd([i \in 1..Len(v) |-> RDiv(v[i], n)], B)
EucJ(p) == [i \in 1..3 |-> VScale(RDiv(R(1), p[4]), Unit(i, 3)) \o <<RNeg(RDiv(p[i], RMul(p[4], p[4])))>>]
Euc(p) == [i \in 1..3 |-> RDiv(p[i], p[4])]

SlerpQ(q0, q1, t) ==
  LET e == QPlus(QInv(q0), q1)
      f == IF RSign(e[4]) < 0 THEN VNeg(e) ELSE e
  IN  QPlus(q0, A2Q(VScale(t, Q2A(f, B)), B))
\* half a turn apart both ways round are equally short
HalfTurn(q0, q1) == RLt(RAbs(QPlus(QInv(q0), q1)[4]), RPow2(-40))
SlerpOther(q0, q1, t) ==
  LET e == QPlus(QInv(q0), q1)
      f == IF RSign(e[4]) < 0 THEN e ELSE VNeg(e)
  IN  QPlus(q0, A2Q(VScale(t, Q2A(f, B)), B))
=============================================================================
