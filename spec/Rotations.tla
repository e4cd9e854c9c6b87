----------------------------- MODULE Rotations -----------------------------
(***************************************************************************)
(* Rotations and rigid transformations in the conventions of               *)
(* sm_kinematics, over the rationals.                                      *)
(*                                                                         *)
(* A quaternion is <<x, y, z, w>>.  Q2C(q) is the rotation matrix of q; a  *)
(* small rotation vector t changes a quaternion by QUpdate(q, t) and a     *)
(* rotation matrix by dC = -[t]x C, so that the rotation vector a stands   *)
(* for C = exp(-[a]x).  A transformation is a 4x4 matrix <<C, t; 0, 1>>;   *)
(* (r; t) changes it by dT = <<-[t]x, r; 0, 0>> T.                         *)
(***************************************************************************)
EXTENDS Exact

\* sum of (-1)^k y^k / (k0 + 2k)! * k0!, the power series of sinc (k0 = 1) and cos (k0 = 0) in y = x^2
RECURSIVE SerAlt(_, _, _, _, _)
SerAlt(s, t, y, k, g) ==
  IF RSign(t) = 0 \/ (RSign(t) < 0 /\ RLe(RAbs(t), RPow2(-g))) THEN s
  ELSE SerAlt(Force(RAdd(s, t)), Force(RRnd(RNeg(RDiv(RMul(t, y), R((k + 1) * (k + 2)))), g)), y, k + 2, g)
\* how many bits the terms may grow over the result, for y = x^2
RECURSIVE Grow(_, _)
Grow(y, x) == IF x > 2000 \/ RLe(y, R(x * x)) THEN 2 * x + 24 ELSE Grow(y, 2 * x)
CosOf2(y, b) == SerAlt(R(0), R(1), RRnd(y, b + Grow(y, 1)), 0, b + Grow(y, 1))
SincOf2(y, b) == SerAlt(R(0), R(1), RRnd(y, b + Grow(y, 1)), 1, b + Grow(y, 1))

\* --------------------------------------------------------------- quaternions
QPlus(q, p) == Force(<<
  RSum(<<RMul(p[1], q[4]), RMul(p[2], q[3]), RNeg(RMul(p[3], q[2])), RMul(p[4], q[1])>>),
  RSum(<<RMul(p[3], q[1]), RNeg(RMul(p[1], q[3])), RMul(p[2], q[4]), RMul(p[4], q[2])>>),
  RSum(<<RMul(p[1], q[2]), RNeg(RMul(p[2], q[1])), RMul(p[3], q[4]), RMul(p[4], q[3])>>),
  RSum(<<RMul(p[4], q[4]), RNeg(RMul(p[2], q[2])), RNeg(RMul(p[3], q[3])), RNeg(RMul(p[1], q[1]))>>)>>)
QInv(q) == <<RNeg(q[1]), RNeg(q[2]), RNeg(q[3]), q[4]>>
QId == <<R(0), R(0), R(0), R(1)>>
Q2C(q) ==
  LET p(i, j) == RMul(q[i], q[j])
      d(i, j) == RMul(R(2), RAdd(i, j))
      e(i, j) == RMul(R(2), RSub(i, j))
  IN  Force(<<<<RSum(<<p(1, 1), RNeg(p(2, 2)), RNeg(p(3, 3)), p(4, 4)>>), d(p(1, 2), p(3, 4)), e(p(1, 3), p(2, 4))>>,
        <<e(p(1, 2), p(3, 4)), RSum(<<RNeg(p(1, 1)), p(2, 2), RNeg(p(3, 3)), p(4, 4)>>), d(p(1, 4), p(2, 3))>>,
        <<d(p(1, 3), p(2, 4)), e(p(2, 3), p(1, 4)), RSum(<<RNeg(p(1, 1)), RNeg(p(2, 2)), p(3, 3), p(4, 4)>>)>>>>)
\* the quaternion of a rotation vector
A2Q(a, b) == LET y == RDiv(VSq(a), R(4))
             IN  VScale(RDiv(SincOf2(y, b), R(2)), a) \o <<CosOf2(y, b)>>
QUpdate(q, t, b) == VRnd(QPlus(A2Q(t, b), q), b)
\* the rotation vector of a unit quaternion, of length at most 2 pi: 2 atan2(n, w) eps / n
Q2A(q, b) ==
  LET e == SubSeq(q, 1, 3)
      n == RSqrt(VSq(e), b + 40)
  IN  IF RSign(n) = 0 THEN VZero(3)
      ELSE VScale(RDiv(RMul(R(2), RAtan2(n, q[4], b)), n), e)
QNormalised(q, b) == LET n == RSqrt(VSq(q), b) IN Force([i \in 1..4 |-> RRnd(RDiv(q[i], n), b)])
\* what a quaternion product does to a vector
QRot(q, v) == MV(Q2C(q), v)

\* ----------------------------------------------------------- rotation matrices
A2C(a, b) == MRnd(Q2C(A2Q(a, b)), b)
Skew(C) == <<RSub(C[3][2], C[2][3]), RSub(C[1][3], C[3][1]), RSub(C[2][1], C[1][2])>>
Tr3(C) == RSum(<<C[1][1], C[2][2], C[3][3]>>)
\* the rotation vector of C, of length at most pi; away from pi
C2A(C, b) ==
  LET s == Skew(C)
      n == RSqrt(VSq(s), b + 40)
  IN  IF RSign(n) = 0 THEN VZero(3)
      ELSE VScale(RNeg(RDiv(RAtan2(n, RSub(Tr3(C), R(1)), b), n)), s)
Rx(x, b) == LET f == RSinCos(x, b) IN <<<<R(1), R(0), R(0)>>, <<R(0), f[2], RNeg(f[1])>>, <<R(0), f[1], f[2]>>>>
Ry(x, b) == LET f == RSinCos(x, b) IN <<<<f[2], R(0), f[1]>>, <<R(0), R(1), R(0)>>, <<RNeg(f[1]), R(0), f[2]>>>>
Rz(x, b) == LET f == RSinCos(x, b) IN <<<<f[2], RNeg(f[1]), R(0)>>, <<f[1], f[2], R(0)>>, <<R(0), R(0), R(1)>>>>
\* yaw, pitch, roll: C = Rz(p1) Ry(p2) Rx(p3)
YPR2C(p, b) == MRnd(MM(Rz(p[1], b), MM(Ry(p[2], b), Rx(p[3], b))), b)
C2YPR(C, b) == <<RAtan2(C[2][1], C[1][1], b), RAsin(RNeg(C[3][1]), b), RAtan2(C[3][2], C[3][3], b)>>
\* Z, X, Y: C = Rz(p1) Rx(p2) Ry(p3)
ZXY2C(p, b) == MRnd(MM(Rz(p[1], b), MM(Rx(p[2], b), Ry(p[3], b))), b)
\* Rodrigues parameters: tan(angle / 2) times the axis
Rod2C(p) == LET x == CrossM(p) IN MAdd(MId(3), MScale(RDiv(R(2), RAdd(R(1), VSq(p))), MSub(MM(x, x), x)))
C2Rod(C) == VScale(RNeg(RDiv(R(1), RAdd(R(1), Tr3(C)))), Skew(C))

\* the rotation vector of an infinitesimal change: [J]x = -dC C'
VecOfChange(dC, C) == LET X == MM(dC, MT(C)) IN
  VScale(RDiv(R(-1), R(2)), <<RSub(X[3][2], X[2][3]), RSub(X[1][3], X[3][1]), RSub(X[2][1], X[1][2])>>)

\* ------------------------------------------------------------ transformations
MkT(C, t) == [i \in 1..4 |-> IF i = 4 THEN <<R(0), R(0), R(0), R(1)>> ELSE C[i] \o <<t[i]>>]
TC(T) == [i \in 1..3 |-> SubSeq(T[i], 1, 3)]
Tt(T) == [i \in 1..3 |-> T[i][4]]
\* for an orthonormal C
TInv(T) == LET D == MT(TC(T)) IN MkT(D, VNeg(MV(D, Tt(T))))
\* (r; t) of an infinitesimal change of T
TChange(dT, T) ==
  LET C == TC(T)
      f == VecOfChange(TC(dT), C)
  IN  VAdd(Tt(dT), Cross(f, Tt(T))) \o f
Box6(T) == LET C == TC(T) X == MScale(R(-1), MM(CrossM(Tt(T)), C)) IN
  [i \in 1..6 |-> IF i <= 3 THEN C[i] \o X[i] ELSE VZero(3) \o C[i - 3]]
=============================================================================
