----------------------------- MODULE KinLawsMC -----------------------------
(***************************************************************************)
(* The laws of rotations, transformations and their covariances over words *)
(* of exact rational transformations: what the code is compared with in    *)
(* KinTrace is a group, its adjoint, and the derivatives they claim to be. *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets
CONSTANTS Depth, Gens
VARIABLES word
Third(a, b, c, d, n) == <<RQ(a, n), RQ(b, n), RQ(c, n), RQ(d, n)>>
\* unit quaternions with rational entries, and translations
QG == <<Third(1, 1, 1, 1, 2), Third(1, 2, 2, 0, 3), Third(2, -1, 0, 2, 3), Third(0, 0, 3, 4, 5), Third(-2, 4, 5, 2, 7), Third(0, 0, 0, 1, 1)>>
TG == <<<<R(1), R(0), R(-2)>>, <<R(0), R(0), R(0)>>, <<RQ(1, 2), R(3), R(1)>>, <<R(-1), R(1), RQ(2, 3)>>, <<R(2), R(2), RQ(-1, 3)>>, <<R(0), R(-5), R(1)>>>>
UG(k) == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN R(1 + ((i + k) % 3)) ELSE IF (i + j + k) % 4 = 0 THEN RQ(1, 4) ELSE R(0)]]
USym(k) == LET U == UG(k) IN Force([i \in 1..6 |-> [j \in 1..6 |-> RDiv(RAdd(U[i][j], U[j][i]), R(2))]])
Gen(k) == [q |-> QG[k], t |-> TG[k], U |-> USym(k)]
Mul(a, b) == [q |-> QPlus(a.q, b.q), t |-> VAdd(QRot(a.q, b.t), a.t),
              U |-> MAdd(a.U, Quad(Box6(MkT(Q2C(a.q), a.t)), b.U))]
MatOf(a) == MkT(Q2C(a.q), a.t)
Inv(a) == LET C == MT(Q2C(a.q)) t == VNeg(MV(C, a.t)) IN [q |-> QInv(a.q), t |-> t, U |-> Quad(Box6(MkT(C, t)), a.U)]
Id == [q |-> QId, t |-> VZero(3), U |-> MZero(6, 6)]
RECURSIVE Fold(_)
Fold(w) == IF w = <<>> THEN Id ELSE Mul(Fold(SubSeq(w, 1, Len(w) - 1)), Gen(w[Len(w)]))
RECURSIVE FoldR(_)
FoldR(w) == IF w = <<>> THEN Id ELSE Mul(Gen(w[1]), FoldR(Tail(w)))
Init == word = <<>>
Next == Len(word) < Depth /\ \E g \in Gens : word' = Append(word, g)

A == Fold(word)
M == MatOf(A)
Last == IF word = <<>> THEN Id ELSE Gen(word[Len(word)])
Same(a, b) == MatOf(a) = MatOf(b) /\ a.U = b.U
\* ------------------------------------------------------------ the group
Associative == Same(Fold(word), FoldR(word))
Rigid == MM(TC(M), MT(TC(M))) = MId(3) /\ VSq(A.q) = R(1) /\ RDot(TC(M)[1], Cross(TC(M)[2], TC(M)[3])) = R(1)
Inverse == MM(M, TInv(M)) = MId(4) /\ MatOf(Inv(A)) = TInv(M) /\ Same(Inv(Inv(A)), A)
Homomorphism == MatOf(Mul(A, Last)) = MM(M, MatOf(Last))
Action == LET v == <<R(1), R(-2), RQ(3, 2)>> IN
  /\ MV(MM(M, MatOf(Last)), v \o <<R(1)>>) = MV(M, MV(MatOf(Last), v \o <<R(1)>>))
  /\ QPlus(QPlus(A.q, v \o <<R(0)>>), QInv(A.q)) = MV(Q2C(A.q), v) \o <<R(0)>>
\* ---------------------------------------------------------- the adjoint
AdjointHomomorphism == MM(Box6(M), Box6(MatOf(Last))) = Box6(MM(M, MatOf(Last)))
AdjointInverse == MM(Box6(M), Box6(TInv(M))) = MId(6)
\* T boxplus(x) T^-1 = boxplus(Ad x)
AdjointAction == \A i \in 1..6 : MM(MM(M, BoxP(Unit(i, 6))), TInv(M)) = BoxP(MV(Box6(M), Unit(i, 6)))
\* covariance of an inverse: the product with the inverse has that of a difference
InverseCovariance == LET P == Mul(Inv(A), A) IN
  MatOf(P) = MId(4) /\ P.U = MScale(R(2), Inv(A).U)
\* a minus sign in T's perturbation of a point
BoxMinusIsDerivative == LET p == <<R(1), R(2), R(-1), RQ(1, 2)>> v == MV(M, p) IN
  \A i \in 1..6 : MV(BoxP(Unit(i, 6)), v) = VNeg([k \in 1..4 |-> BoxM(v)[k][i]])
\* --------------------------------------------- parametrisations and points
c0 == Q2C(A.q)
Rodrigues == ~REq(Tr3(c0), R(-1)) => Rod2C(C2Rod(c0)) = c0
RotVec == (RLt(RQ(-9, 10), Tr3(c0))) => MNear(A2C(C2A(c0, 120), 120), c0, R(1), 90)
LogExp == VMax(SubSeq(A.q, 1, 3)) = R(0) \/ VNear(A2Q(Q2A(A.q, 120), 120), A.q, R(1), 90)
Euler == RLt(RAbs(c0[3][1]), R(1)) => MNear(YPR2C(C2YPR(c0, 120), 120), c0, R(1), 80)
Points == LET p == <<R(1), R(-3), R(2), R(2)>> q == <<R(0), R(1), R(1), R(-1)>> IN
  /\ Euc(<<RAdd(RMul(p[1], q[4]), RMul(q[1], p[4])), RAdd(RMul(p[2], q[4]), RMul(q[2], p[4])), RAdd(RMul(p[3], q[4]), RMul(q[3], p[4])), RMul(p[4], q[4])>>) = VAdd(Euc(p), Euc(q))
  \* the covariance of p - p, and that the derivative of Euc(p + q) does not depend on the scale of q
  /\ MM(EucJ(MV(HPlus(q), p)), HPlus(q)) = EucJ(p)
  /\ MM(EucJ(MV(HMinus(q), p)), HMinus(q)) = EucJ(p)
\* the S matrix turns the covariance of oplus into that of the transformation: dt = r + t x w ... both ways
SMatrix == LET t == A.t IN MM(SMat(t), SMat(VNeg(t))) = MId(6)
Screw == \* the covariance of oplus pushed through the composition with a pure translation on the left
  LET u == [A EXCEPT !.U = Quad(SMat(A.t), USym(1))]
      v == Mul([q |-> QId, t |-> <<R(1), R(1), R(4)>>, U |-> MZero(6, 6)], u)
  IN  v.U = Quad(SMat(v.t), USym(1))
============================================================================
