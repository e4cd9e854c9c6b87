------------------------------ MODULE KinTrace ------------------------------
(***************************************************************************)
(* Rotations, transformations and uncertain geometry (sm_kinematics).      *)
(*                                                                         *)
(* Functions are recomputed from their definition; a conversion to a       *)
(* parametrisation is judged by converting back with the definition, which *)
(* is well conditioned also where the parametrisation is not (near 0, near *)
(* pi).  Objects live in registers: the state is what each register holds, *)
(* an operation gives its result from the registers it reads and leaves    *)
(* them alone.                                                             *)
(***************************************************************************)
EXTENDS Geometry, Trc

VARIABLE reg
vars == <<l, reg>>

Col(x) == Force([i \in 1..Len(x) |-> x[i][1]])
AsCol(v) == [i \in 1..Len(v) |-> <<v[i]>>]
X(i) == Mat(Line.x[i])
c(i) == Col(X(i))
s(i) == X(i)[1][1]
Y(i) == Mat(Line.y[i])
d(i) == Col(Y(i))
Fin == \A i \in DOMAIN Line.y : AllFiniteM(Line.y[i])
YIs(i, E, scale, k) == LMNear(Line.y[i], E, scale, k)
YVec(i, E, scale, k) == YIs(i, AsCol(E), scale, k)
IsRotation(C, k) == MNear(MM(C, MT(C)), MId(3), R(1), k) /\ RLe(R(0), RDot(C[1], Cross(C[2], C[3])))
\* the same quaternion, or the same rotation
SameQ(p, q, k) == VNear(p, q, R(1), k)
SameRot(p, q, k) == MNear(Q2C(p), Q2C(q), R(1), k)

\* C maximises tr(C' A) over rotations iff C'A is symmetric and no eigenvalue pair of it has a negative sum
Mean(P) == Force([i \in 1..Len(P) |-> RDiv(RSum(P[i]), R(Len(P[i])))])
Optimal(C, A, k) ==
  LET S == MM(MT(C), A)
      tr == Tr3(S)
      sc == RAdd(RPow2(-30), RMul(R(3), MMax(A)))
      G == [i \in 1..3 |-> [j \in 1..3 |-> RSub(IF i = j THEN RAdd(tr, RMul(sc, Eps(k - 3))) ELSE R(0), RDiv(RAdd(S[i][j], S[j][i]), R(2)))]]
  IN  MNearRel(S, MT(S), sc, k) /\ PivotsAbove(G, R(0))

\* --------------------------------------------------------------- functions
Fun(f) ==
  CASE f = "q2r" -> YIs(1, Q2C(c(1)), R(1), 48)
    [] f = "r2q" -> /\ RSign(d(1)[4]) >= 0
                    /\ Near(VSq(d(1)), R(1), R(1), 46)
                    /\ MNear(Q2C(d(1)), X(1), R(1), 46)
    [] f = "a2q" -> LET q == A2Q(c(1), B) IN
                    /\ YVec(1, q, RAdd(R(1), VMax(c(1))), 48) /\ Line.y[1] = Line.y[2]
                    /\ VNearRel(SubSeq(d(1), 1, 3), SubSeq(q, 1, 3), RMul(RAdd(R(1), VMax(c(1))), VMax(c(1))), 47)
    [] f = "q2a" -> LET q == c(1) e == SubSeq(q, 1, 3) IN
                    /\ Line.y[1] = Line.y[2]
                    /\ RLt(VMax(e), RPow2(-500)) \/ RLe(Norm(d(1)), RMul(RPi(60), RAdd(R(2), RPow2(-40))))
                    /\ IF RSign(VMax(e)) = 0 THEN REq(VMax(d(1)), R(0))
                       ELSE \/ VNear(A2Q(d(1), B), q, R(1), 46)
                            \/ RLt(VMax(e), RPow2(-500)) \* the squares underflow
                    /\ (RLt(RQ(-1, 2), q[4]) => IF RLt(VMax(e), RPow2(-60)) THEN VNearRel(d(1), VScale(R(2), e), RMax(RPow2(-450), VMax(e)), 44)
                                              ELSE VNearRel(d(1), Q2A(q, B), VMax(e), 44))
    [] f = "qplus" -> YVec(1, QPlus(c(1), c(2)), R(4), 48) /\ YVec(2, QPlus(c(1), c(2)), R(4), 48)
    [] f = "qoplus" -> YVec(1, QPlus(c(2), c(1)), R(4), 48) /\ YVec(2, QPlus(c(2), c(1)), R(4), 48)
    [] f = "qinv" -> /\ d(1) = QInv(c(1)) /\ d(2) = QInv(c(1)) /\ d(3) = SubSeq(c(1), 1, 3)
                     /\ d(4) = <<c(1)[4]>> /\ d(5) = QId
    [] f = "qrot" -> YVec(1, QRot(c(1), c(2)), RMul(R(8), VMax(c(2))), 48)
    [] f = "qslerp" -> IF RLe(s(3), R(0)) THEN Line.y[1] = Line.x[1]
                       ELSE IF RLe(R(1), s(3)) THEN Line.y[1] = Line.x[2]
                       ELSE SameQ(d(1), SlerpQ(c(1), c(2), s(3)), 45) \/ (HalfTurn(c(1), c(2)) /\ SameQ(d(1), SlerpOther(c(1), c(2), s(3)), 45))
    [] f = "lerp" -> IF RLe(s(3), R(0)) THEN Line.y[1] = Line.x[1]
                     ELSE IF RLe(R(1), s(3)) THEN Line.y[1] = Line.x[2]
                     ELSE YVec(1, VAdd(VScale(RSub(R(1), s(3)), c(1)), VScale(s(3), c(2))), RAdd(VMax(c(1)), VMax(c(2))), 49)
    [] f = "qjac" -> YIs(1, QJac(c(1)), R(1), 50) /\ YIs(2, QJac(c(1)), R(1), 50)
    [] f = "qS" -> YIs(1, MScale(R(4), MT(QJac(c(1)))), R(1), 48)
    [] f = "qupd" -> YVec(1, QUpdate(c(1), c(2), B), RAdd(R(4), VMax(c(2))), 47)
    [] f \in {"expd"} -> YIs(1, SOf("rv", c(1)), R(4), 44)
    [] f \in {"logd", "rv_invS"} -> MNear(MM(Y(1), SOf("rv", c(1))), MId(3), RMul(R(4), RAdd(R(1), MMax(Y(1)))), 44)
    [] f = "qexpj" -> YIs(1, ExpJ(c(1)), R(4), 44)
    [] f \in {"qlogj", "qlogj1"} -> MNear(MM(Y(1), ExpJ(Q2A(c(1), B))), MId(3), RMul(R(4), RAdd(R(1), MMax(Y(1)))), IF f = "qlogj" THEN 43 ELSE 30)
    [] f = "rx" -> YIs(1, Rx(s(1), B), RAdd(R(1), RAbs(s(1))), 49) /\ YIs(2, MT(Rx(s(1), B)), RAdd(R(1), RAbs(s(1))), 49)
    [] f = "ry" -> YIs(1, Ry(s(1), B), RAdd(R(1), RAbs(s(1))), 49) /\ YIs(2, MT(Ry(s(1), B)), RAdd(R(1), RAbs(s(1))), 49)
    [] f = "rz" -> YIs(1, Rz(s(1), B), RAdd(R(1), RAbs(s(1))), 49) /\ YIs(2, MT(Rz(s(1), B)), RAdd(R(1), RAbs(s(1))), 49)
    [] f = "rph2R" -> \A i \in 1..2 : YIs(i, P2C("ypr", <<c(1)[3], c(1)[2], c(1)[1]>>), RAdd(R(2), VMax(c(1))), 48)
    [] f = "rph2C" -> \A i \in 1..2 : YIs(i, P2C("zyx", <<c(1)[3], c(1)[2], c(1)[1]>>), RAdd(R(2), VMax(c(1))), 48)
    [] f \in {"R2rph", "C2rph"} ->
         LET p == <<d(1)[3], d(1)[2], d(1)[1]>>
             k == IF f = "R2rph" THEN "ypr" ELSE "zyx"
         IN  /\ VMax(<<p[1], p[3]>>) # R(0) => RLe(VMax(<<p[1], p[3]>>), RAdd(RPi(60), RPow2(-50)))
             /\ RLe(RAbs(p[2]), RAdd(RDiv(RPi(60), R(2)), RPow2(-50)))
             /\ MNear(P2C(k, p), X(1), Cond("ypr", p), 46)
    [] f = "cross" -> \A i \in 1..3 : Y(i) = CrossM(c(1))
    [] f = "aa2R" -> YIs(1, A2C(c(1), B), RAdd(R(2), VMax(c(1))), IF RLt(VMax(c(1)), RPow2(-36)) THEN 39 ELSE 46) /\ Line.y[1] = Line.y[2]
    [] f = "aa2R4" -> YIs(1, A2C(VScale(s(1), c(2)), B), RAdd(R(2), RAbs(s(1))), 39)
    [] f = "R2aa" -> /\ RLe(Norm(d(1)), RAdd(RPi(60), RPow2(-46)))
                     /\ MNear(A2C(d(1), B), X(1), R(1), 45)
    [] f = "amod" -> LET p2 == RMul(R(2), RPi(100))
                         n == RFloor(RAdd(RDiv(RSub(s(1), d(1)[1]), p2), RQ(1, 2)))
                     IN  /\ RLe(RAbs(d(1)[1]), RAdd(RPi(60), RMul(RAdd(R(1), RAbs(s(1))), RPow2(-49))))
                         /\ Near(RSub(s(1), d(1)[1]), RMul(n, p2), RAdd(R(1), RAbs(s(1))), 49)
    [] f = "deg" -> /\ NearRel(d(1)[1], RDiv(RMul(s(1), RPi(100)), R(180)), RAbs(s(1)), 48)
                    /\ NearRel(d(2)[1], RDiv(RMul(s(1), R(180)), RPi(100)), RMul(R(60), RAbs(s(1))), 48)
    [] f = "rt2T" -> Y(1) = MkT(X(1), c(2)) /\ Y(2) = X(1) /\ d(3) = c(2) /\ d(4) = c(2) \o <<R(1)>>
    [] f = "boxp" -> Y(1) = BoxP(c(1))
    [] f = "boxm" -> Y(1) = BoxM(c(1))
    [] f = "boxt" -> YIs(1, Box6(X(1)), RMul(R(4), MMax(X(1))), 49)
    [] f = "Tinv" -> YIs(1, TInv(X(1)), RMul(R(4), MMax(X(1))), 49)
    [] f = "T2e" -> LET p == <<d(1)[6], d(1)[5], d(1)[4]>> IN
                    SubSeq(d(1), 1, 3) = Tt(X(1)) /\ MNear(P2C("zyx", p), TC(X(1)), Cond("ypr", p), 46)
    [] f = "e2T" -> \A i \in 1..2 : YIs(i, MkT(P2C("zyx", <<c(1)[6], c(1)[5], c(1)[4]>>), SubSeq(c(1), 1, 3)), RAdd(R(2), VMax(c(1))), 48)
    [] f = "Tjac" -> LET v == MV(X(1), c(2)) sc == RMul(R(8), RMul(MMax(X(1)), VMax(c(2)))) IN
                     YVec(1, v, sc, 49) /\ YIs(2, BoxM(v), sc, 49)
    [] f = "Tijac" -> LET T == TInv(X(1)) sc == RMul(R(16), RMul(RMax(R(1), MMax(X(1))), VMax(c(2)))) IN
                      /\ YVec(1, MV(T, c(2)), sc, 48)
                      /\ YIs(2, MT([i \in 1..6 |-> MV(T, MV(BoxP(Unit(i, 6)), c(2)))]), sc, 48)
    [] f = "hom" -> /\ d(1) = c(1) \o <<R(1)>> /\ d(4) = d(1)
                    /\ Y(2) = MT([i \in 1..3 |-> Unit(i, 4)]) /\ Y(3) = Y(2)
    [] f = "euc" -> /\ VNearRel(d(1), Euc(c(1)), VMax(Euc(c(1))), 49) /\ Line.y[4] = Line.y[1]
                    /\ MNearRel(Y(2), EucJ(c(1)), MMax(EucJ(c(1))), 48) /\ Line.y[3] = Line.y[2]
    [] f = "homc" -> Y(1) = X(1) \o <<[j \in 1..NCols(X(1)) |-> R(1)]>>
    [] f = "eucc" -> LET M == X(1) n == Len(M) IN
                     /\ Len(Line.y[1]) = n - 1
                     /\ \A i \in 1..n - 1 : \A j \in 1..NCols(M) : NearRel(Y(1)[i][j], RDiv(M[i][j], M[n][j]), RAbs(RDiv(M[i][j], M[n][j])), 50)
    [] f = "norm" -> /\ YVec(1, Normed(c(1)), R(1), 49) /\ YVec(3, Normed(c(1)), R(1), 49)
                     /\ MNearRel(Y(2), NormJ(c(1)), RAdd(RPow2(-30), RDiv(R(4), Norm(c(1)))), 48)
    [] f = "hplus" -> Y(1) = HPlus(c(1)) /\ Y(2) = HMinus(c(1))
    [] f = "svd" -> LET P0 == X(1) P1 == X(2) T == Y(1)
                        m0 == Mean(P0) m1 == Mean(P1)
                        A == MM([i \in 1..3 |-> [j \in 1..NCols(P0) |-> RSub(P0[i][j], m0[i])]],
                                MT([i \in 1..3 |-> [j \in 1..NCols(P1) |-> RSub(P1[i][j], m1[i])]]))
                    IN  /\ IsRotation(TC(T), 45) /\ T[4] = Unit(4, 4)
                        /\ VNear(Tt(T), VSub(m0, MV(TC(T), m1)), RAdd(VMax(m0), RMul(R(3), VMax(m1))), 46)
                        /\ Optimal(TC(T), A, 42)
    [] f \in {"qmeth", "qmeth1"} ->
                    LET w == IF f = "qmeth" THEN c(3) ELSE [j \in 1..NCols(X(1)) |-> R(1)]
                        A == MM([i \in 1..3 |-> [j \in 1..NCols(X(1)) |-> RMul(w[j], X(1)[i][j])]], MT(X(2)))
                    IN  IsRotation(Y(1), 45) /\ Optimal(Y(1), A, 40)
    [] f \in {k \o "_p2R" : k \in {"ypr", "zyx", "zxy", "rod", "rv"}} ->
         LET k == CHOOSE k \in {"ypr", "zyx", "zxy", "rod", "rv"} : f = k \o "_p2R"
             C == P2C(k, c(1)) S == SOf(k, c(1)) sc == RAdd(R(4), VMax(c(1)))
         IN  YIs(1, C, sc, 46) /\ YIs(3, C, sc, 46) /\ YIs(2, S, sc, 43) /\ YIs(4, S, sc, 43)
    [] f \in {k \o "_R2p" : k \in {"ypr", "zyx", "zxy", "rod", "rv"}} ->
         LET k == CHOOSE k \in {"ypr", "zyx", "zxy", "rod", "rv"} : f = k \o "_R2p"
         IN  MNear(P2C(k, d(1)), X(1), Cond(k, d(1)), 45)
    [] f \in {k \o "_av" : k \in {"ypr", "zyx", "zxy", "rod", "rv"}} ->
         LET k == CHOOSE k \in {"ypr", "zyx", "zxy", "rod", "rv"} : f = k \o "_av"
             S == SOf(k, c(1)) sc == RMul(RAdd(R(4), VMax(c(1))), RAdd(R(1), VMax(c(2))))
         IN  YVec(1, MV(S, c(2)), sc, 43) /\ YVec(3, MV(S, c(2)), sc, 43) /\ YIs(2, AvJ(k, c(1), c(2)), sc, 38)

\* q2r and friends refuse quaternions that are not unit vectors
Refused(f) == f = "q2r" /\ ~Near(VSq(c(1)), R(1), R(1), 13)

\* ---------------------------------------------------------------- registers
\* the expected content of a register, as a record of exact values; "how far" are scales
Rq(r) == Vec(r.q)
Rt(r) == Vec(r.t)
RT(r) == MkT(Q2C(Rq(r)), Rt(r))
Cov(r, n) == IF r.k \in {"U", "p", "v", "s"} THEN Mat(r.U) ELSE MZero(n, n)
QuadSc(J, U) == RMul(RMul(R(Len(U) * Len(U)), RMul(MMax(J), MMax(J))), MMax(U))
HasU(r) == r.k \in {"U", "p", "v", "s"}
\* an expected result: k, the fields, and the scales of their errors
ET(k, q, t, tsc, U, usc) == [k |-> k, q |-> q, t |-> t, tsc |-> tsc, U |-> U, usc |-> usc]
EP(k, h, hsc, U, usc) == [k |-> k, h |-> h, hsc |-> hsc, U |-> U, usc |-> usc]
EV(k, m, msc, U, usc) == [k |-> k, m |-> m, msc |-> msc, U |-> U, usc |-> usc]
Matches(r, e) ==
  /\ ChkV("kind of the result", r.k = e.k, <<r.k, e.k>>)
  /\ (r.k \in {"T", "U"} =>
       /\ Chk("orientation", AllFinite(r.q) /\ SameQ(Rq(r), e.q, 43))
       /\ Chk("translation", LVNear(r.t, e.t, e.tsc, 45)))
  /\ (r.k \in {"h", "p"} => Chk("coordinates", LVNear(r.h, e.h, e.hsc, 45)))
  /\ (r.k \in {"v", "s"} => Chk("mean", LVNear(r.m, e.m, e.msc, 45)))
  /\ (HasU(r) => Chk("covariance", LMNear(r.U, e.U, e.usc, 43)))
Vsc(v) == RAdd(R(1), VMax(v))

\* the quaternion a matrix stands for: w >= 0
MulTT(a, b) == [q |-> QNormalised(QPlus(Rq(a), Rq(b)), B), t |-> VAdd(QRot(Rq(a), Rt(b)), Rt(a)), sc |-> RMul(R(4), RAdd(Vsc(Rt(a)), Vsc(Rt(b))))]
Result(f, a, b, x) ==
  CASE f \in {"mul", "mulv"} /\ a.k \in {"T", "U"} /\ b.k \in {"T", "U"} ->
         LET m == MulTT(a, b)
             J == Box6(RT(a))
         IN  ET(IF a.k = "U" \/ b.k = "U" THEN "U" ELSE "T", m.q, m.t, m.sc,
                MAdd(Cov(a, 6), Quad(J, Cov(b, 6))), RAdd(MMax(Cov(a, 6)), QuadSc(J, Cov(b, 6))))
    [] f \in {"mul", "mulv"} /\ a.k \in {"T", "U"} ->
         LET p == Vec(b.h)
             T == RT(a)
             v == MV(T, p)
             J == BoxM(v)
             sc == RMul(R(8), RMul(Vsc(p), Vsc(Rt(a))))
         IN  EP(IF a.k = "U" \/ b.k = "p" THEN "p" ELSE "h", v, sc,
                MAdd(Quad(J, Cov(a, 6)), Quad(T, Cov(b, 4))), RAdd(QuadSc(MScale(R(2), J), Cov(a, 6)), QuadSc(T, Cov(b, 4))))
    [] f = "inv" -> LET C == MT(Q2C(Rq(a)))
                        t == VNeg(MV(C, Rt(a)))
                        J == Box6(MkT(C, t))
                    IN  ET(a.k, QNormalised(QInv(Rq(a)), B), t, RMul(R(4), Vsc(Rt(a))), Quad(J, Cov(a, 6)), QuadSc(MScale(R(2), J), Cov(a, 6)))
    [] f = "cert" -> ET("T", Rq(a), Rt(a), R(0), <<>>, R(0))
    [] f = "oplus" /\ a.k \in {"T", "U"} -> ET(a.k, QUpdate(Rq(a), SubSeq(x[1], 4, 6), B), VAdd(Rt(a), SubSeq(x[1], 1, 3)), Vsc(Rt(a)), Cov(a, 6), R(0))
    [] f = "oplus" -> EP(a.k, QUpdate(Vec(a.h), x[1], B), RMul(R(4), Vsc(Vec(a.h))), Cov(a, 4), R(0))
    [] f \in {"slerp", "interp"} ->
         LET swap == f = "interp" /\ RLt(x[1][2], x[1][1])
             p == IF swap THEN b ELSE a
             q == IF swap THEN a ELSE b
             s0 == IF f = "slerp" THEN R(0) ELSE RMin(x[1][1], x[1][2])
             s1 == IF f = "slerp" THEN R(1) ELSE RMax(x[1][1], x[1][2])
             si == IF f = "slerp" THEN x[1][1] ELSE x[1][3]
             u == RDiv(RSub(si, s0), RSub(s1, s0))
             v == RMax(R(0), RMin(R(1), u))
         IN  ET("T", IF REq(v, R(0)) THEN Rq(p) ELSE IF REq(v, R(1)) THEN Rq(q)
                     ELSE IF HalfTurn(Rq(p), Rq(q)) /\ ~SameQ(Rq(Line.rr), SlerpQ(Rq(p), Rq(q), v), 43) THEN SlerpOther(Rq(p), Rq(q), v)
                     ELSE SlerpQ(Rq(p), Rq(q), v),
                VAdd(VScale(RSub(R(1), v), Rt(p)), VScale(v, Rt(q))), RMul(R(8), RAdd(Vsc(Rt(p)), Vsc(Rt(q)))), <<>>, R(0))
    [] f = "setU" -> LET e == [a EXCEPT !.U = Line.x[1]] IN
         IF a.k = "U" THEN ET("U", Rq(a), Rt(a), R(0), Mat(e.U), R(0))
         ELSE IF a.k = "p" THEN EP("p", Vec(a.h), R(0), Mat(e.U), R(0)) ELSE EV("v", Vec(a.m), R(0), Mat(e.U), R(0))
    [] f = "setUO" -> IF a.k = "U" THEN ET("U", Rq(a), Rt(a), R(0), Quad(SMat(Rt(a)), Mat(Line.x[1])), QuadSc(SMat(Rt(a)), Mat(Line.x[1])))
                      ELSE EP("p", Vec(a.h), R(0), Quad(QJac(Vec(a.h)), Mat(Line.x[1])), QuadSc(MId(4), Mat(Line.x[1])))
    [] f \in {"normalize", "normalized"} ->
         IF a.k = "v" THEN EV("v", Normed(Vec(a.m)), R(2), Quad(NormJ(Vec(a.m)), Mat(a.U)), QuadSc(MScale(R(2), NormJ(Vec(a.m))), Mat(a.U)))
         ELSE EP(a.k, Normed(Vec(a.h)), R(2), IF a.k = "h" THEN <<>> ELSE Quad(NormJ(Vec(a.h)), Mat(a.U)), IF a.k = "h" THEN R(0) ELSE QuadSc(MScale(R(2), NormJ(Vec(a.h))), Mat(a.U)))
    [] f = "tovec" -> EP("h", SubSeq(Vec(a.h), 1, 3) \o <<R(0)>>, R(0), <<>>, R(0))
    [] f = "topoint" -> EP("h", SubSeq(Normed(Vec(a.h)), 1, 3) \o <<R(1)>>, R(2), <<>>, R(0))
    [] f = "scale" -> EP("h", VScale(x[1][1], SubSeq(Vec(a.h), 1, 3)) \o <<Vec(a.h)[4]>>, Vsc(VScale(x[1][1], Vec(a.h))), <<>>, R(0))
    [] f = "zero" -> IF a.k = "v" THEN EV("v", VZero(3), R(0), MZero(3, 3), R(0)) ELSE IF a.k = "s" THEN EV("s", VZero(1), R(0), MZero(1, 1), R(0))
                     ELSE EP("h", QId, R(0), <<>>, R(0))
    [] f = "rotate" -> LET C == Q2C(Rq(a)) IN EV("v", MV(C, Vec(b.m)), RMul(R(4), Vsc(Vec(b.m))), Quad(C, Mat(b.U)), QuadSc(MId(3), Mat(b.U)))
    [] f = "lin" -> LET A == X(1) IN EV("v", MV(A, Vec(a.m)), RMul(RMul(R(4), Vsc(Vec(a.m))), MMax(A)), Quad(A, Mat(a.U)), QuadSc(A, Mat(a.U)))
    [] f = "times" -> LET g == x[1][1] IN EV(a.k, VScale(g, Vec(a.m)), VMax(VScale(g, Vec(a.m))), MScale(RMul(g, g), Mat(a.U)), MMax(MScale(RMul(g, g), Mat(a.U))))
    [] f = "mul" -> \* a vector or scalar times a scalar
         LET v == IF b.k = "v" THEN b ELSE a
             g == IF b.k = "v" THEN a ELSE b
             m == Vec(v.m) q == Vec(g.m)[1]
             U == MAdd(MScale(Mat(g.U)[1][1], [i \in 1..Len(m) |-> VScale(m[i], m)]), MScale(RMul(q, q), Mat(v.U)))
         IN  EV(v.k, VScale(q, m), VMax(VScale(q, m)), U, RMul(R(4), RAdd(MMax(U), RAdd(RMul(VSq(m), MMax(Mat(g.U))), RMul(RMul(q, q), MMax(Mat(v.U)))))))
    [] f = "dot" -> LET m == Vec(a.m) n == Vec(b.m)
                        U == RAdd(RDot(m, MV(Mat(b.U), m)), RDot(n, MV(Mat(a.U), n)))
                    IN  EV("s", <<RDot(m, n)>>, RMul(R(4), RMul(Vsc(m), Vsc(n))), <<<<U>>>>, RMul(R(16), RMul(RMul(Vsc(m), Vsc(m)), RMul(RMul(Vsc(n), Vsc(n)), RAdd(MMax(Mat(a.U)), MMax(Mat(b.U)))))))
    [] f = "dotc" -> LET m == Vec(a.m) n == x[1] IN
                     EV("s", <<RDot(m, n)>>, RMul(R(4), RMul(Vsc(m), Vsc(n))), <<<<RDot(n, MV(Mat(a.U), n))>>>>, RMul(R(16), RMul(RMul(Vsc(n), Vsc(n)), MMax(Mat(a.U)))))
    [] f = "addc" -> EV(a.k, VAdd(Vec(a.m), x[1]), RAdd(Vsc(Vec(a.m)), VMax(x[1])), Mat(a.U), R(0))
    [] f = "subc" -> EV(a.k, VSub(Vec(a.m), x[1]), RAdd(Vsc(Vec(a.m)), VMax(x[1])), Mat(a.U), R(0))
    [] f = "div" -> LET m == Vec(a.m)[1] n == Vec(b.m)[1]
                        g == RDiv(R(1), n) e == RDiv(m, RMul(n, n))
                        U == RAdd(RMul(RMul(g, g), Mat(a.U)[1][1]), RMul(RMul(e, e), Mat(b.U)[1][1]))
                    IN  EV("s", <<RDiv(m, n)>>, RAbs(RDiv(m, n)), <<<<U>>>>, U)
    [] f = "divc" -> LET g == RDiv(R(1), x[1][1]) IN EV("s", <<RMul(Vec(a.m)[1], g)>>, RAbs(RMul(Vec(a.m)[1], g)), <<<<RMul(RMul(g, g), Mat(a.U)[1][1])>>>>, RMul(RMul(g, g), Mat(a.U)[1][1]))
    [] f = "svec" -> LET m == x[1] IN EV("v", VScale(Vec(a.m)[1], m), VMax(VScale(Vec(a.m)[1], m)), MScale(Mat(a.U)[1][1], [i \in 1..3 |-> VScale(m[i], m)]), RMul(VSq(m), Mat(a.U)[1][1]))
    [] f \in {"add", "sub", "addv", "subv"} /\ a.k \in {"h", "p"} ->
         LET p == Vec(a.h) q == Vec(b.h)
             plus == f \in {"add", "addv"}
             sg == IF plus THEN R(1) ELSE R(-1)
             h == [i \in 1..4 |-> IF i = 4 THEN RMul(p[4], q[4]) ELSE RAdd(RMul(p[i], q[4]), RMul(sg, RMul(q[i], p[4])))]
             JL == IF plus THEN HPlus(q) ELSE HMinus(q)
             JR == [i \in 1..4 |-> IF i = 4 THEN <<R(0), R(0), R(0), p[4]>> ELSE VScale(RMul(sg, p[4]), Unit(i, 3)) \o <<p[i]>>]
         IN  EP(IF a.k = "p" \/ b.k = "p" THEN "p" ELSE "h", h, RMul(Vsc(p), Vsc(q)),
                MAdd(Quad(JL, Cov(a, 4)), Quad(JR, Cov(b, 4))), RAdd(QuadSc(JL, Cov(a, 4)), QuadSc(JR, Cov(b, 4))))
    [] f \in {"add", "sub"} ->
         EV(a.k, IF f = "add" THEN VAdd(Vec(a.m), Vec(b.m)) ELSE VSub(Vec(a.m), Vec(b.m)), RAdd(Vsc(Vec(a.m)), Vsc(Vec(b.m))),
            MAdd(Mat(a.U), Mat(b.U)), RAdd(MMax(Mat(a.U)), MMax(Mat(b.U))))
InPlace == {"oplus", "setU", "setUO", "normalize", "tovec", "topoint", "scale", "zero"}
Views == {"view", "uav"}

View(a) ==
  IF a.k \in {"T", "U"} THEN
    LET T == RT(a) C == TC(T)
        sc == RMul(R(8), Vsc(Rt(a)))
        v3 == c(1) v4 == c(2)
        vs == RMul(sc, RAdd(Vsc(v3), Vsc(v4)))
        w3 == VAdd(MV(C, v3), Rt(a)) w4 == MV(T, v4)
    IN  /\ Chk("matrix", YIs(1, T, R(2), 46) /\ Tt(Y(1)) = Rt(a) /\ Y(1)[4] = Unit(4, 4) /\ YIs(2, C, R(2), 46) /\ YIs(3, SubSeq(T, 1, 3), R(2), 46))
        /\ Chk("S", Y(4) = SMat(Rt(a)))
        /\ Chk("action on points", YVec(5, w3, vs, 46) /\ YVec(6, w4, vs, 46) /\ d(6)[4] = v4[4])
        /\ Chk("rotation of points", YVec(7, MV(C, v3), vs, 46) /\ YVec(8, MV(C, SubSeq(v4, 1, 3)) \o <<v4[4]>>, vs, 46))
        /\ (a.k = "U" => /\ Chk("covariance of oplus", MNear(Quad(SMat(Rt(a)), Y(9)), Mat(a.U), QuadSc(SMat(Rt(a)), Y(9)), 43))
                         /\ Chk("action on points", Line.y[10] = Line.y[5] /\ Line.y[11] = Line.y[6]))
  ELSE
    LET p == Vec(a.h) IN
        /\ Chk("homogeneous", d(1) = p /\ Y(2) = QJac(p))
        /\ Chk("at infinity", d(3) = d(4) /\ (d(3) = <<R(1)>> <=> REq(p[4], R(0))))
        /\ (~REq(p[4], R(0)) =>
             LET J == MM(EucJ(p), QJac(p)) IN
             /\ Chk("Euclidean point", VNearRel(d(5), Euc(p), VMax(Euc(p)), 49) /\ VNearRel(d(6), Euc(p), VMax(Euc(p)), 49))
             /\ Chk("its Jacobian", MNearRel(Y(7), J, RMul(R(4), RAdd(MMax(J), RMul(MMax(EucJ(p)), VMax(p)))), 47))
             /\ (a.k = "p" => Chk("its covariance", MNearRel(Y(8), Quad(EucJ(p), Mat(a.U)), RAdd(RPow2(-40), QuadSc(EucJ(p), Mat(a.U))), 46))))

\* ------------------------------------------------------------------ actions
Init == l = 1 /\ reg = <<>>
TBegin == Is("begin") /\ reg' = [i \in 0..7 |-> [k |-> "none"]]
TF == /\ Is("f")
      /\ IF Line.exc THEN ChkV("refused", Refused(Line.f), Line.f)
         ELSE ChkV("finite", Fin, Line.f) /\ ChkV("value", ~Refused(Line.f) /\ Fun(Line.f), Line.f)
      /\ UNCHANGED reg

OfMat(M) == TC(M)
TSet ==
  /\ Is("set")
  /\ LET y == Line.y
         n == Len(Line.x)
         unit6(a, b) == [i \in 1..6 |-> [j \in 1..6 |-> IF i # j THEN R(0) ELSE IF i <= 3 THEN a ELSE b]]
     IN
     /\ Chk("kind", y.k = Line.k)
     /\ IF Line.k \in {"T", "U"} THEN
          /\ Chk("orientation", AllFinite(y.q) /\
               (IF Line.how \in {"id", "none"} THEN Rq(y) = QId
                ELSE IF Line.how \in {"mat", "matU", "matd", "set"} THEN MNear(Q2C(Rq(y)), OfMat(X(1)), R(1), 46) /\ RSign(Rq(y)[4]) >= 0
                ELSE SameQ(Rq(y), QNormalised(c(1), B), 48)))
          /\ Chk("translation", IF Line.how \in {"id", "none"} THEN Rt(y) = VZero(3)
                ELSE IF Line.how \in {"mat", "matU", "matd", "set"} THEN Rt(y) = Tt(X(1)) ELSE Rt(y) = c(2))
          /\ (Line.k = "U" => Chk("covariance",
               Mat(y.U) = (CASE Line.how = "matU" -> X(2)
                             [] Line.how \in {"qtU", "TU"} -> X(3)
                             [] Line.how = "matd" -> unit6(c(2)[1], c(2)[2])
                             [] Line.how \in {"qtd", "Td"} -> unit6(c(3)[1], c(3)[2])
                             [] OTHER -> MZero(6, 6))))
        ELSE IF Line.k \in {"h", "p"} THEN
          LET h == IF Line.how = "none" THEN QId ELSE IF Len(c(1)) = 3 THEN c(1) \o <<R(1)>> ELSE c(1) IN
          /\ Chk("coordinates", Vec(y.h) = h)
          /\ (Line.k = "p" => Chk("covariance",
               CASE Line.how \in {"4U", "hU"} -> Mat(y.U) = X(2)
                 [] Line.how = "3U" -> Mat(y.U) = [i \in 1..4 |-> IF i = 4 THEN VZero(4) ELSE X(2)[i] \o <<R(0)>>]
                 [] Line.how \in {"4av", "hav"} -> LMNear(y.U, Quad(QJac(h), X(2)), QuadSc(MId(4), X(2)), 46)
                 [] OTHER -> Mat(y.U) = MZero(4, 4)))
        ELSE Chk("mean", Vec(y.m) = c(1)) /\ Chk("covariance", Mat(y.U) = (IF n > 1 THEN X(2) ELSE MZero(Len(c(1)), Len(c(1)))))
     /\ reg' = [reg EXCEPT ![Line.r] = y]

NearUnit(h) == Near(Norm(h), R(1), R(1), 19)
FarFromUnit(h) == ~Near(Norm(h), R(1), R(1), 21)
TReg ==
  /\ Is("reg")
  /\ LET a == reg[Line.a]
         b == reg[Line.b]
         f == Line.f
         refuse == \/ f \in {"add", "sub", "addv", "subv"} /\ a.k \in {"h", "p"} /\ RSign(VMax(Result(f, a, b, <<>>).h)) = 0
                   \/ f = "topoint" /\ a.k = "h" /\ ~REq(Vec(a.h)[4], R(0))
                   \/ f \in {"uav", "setUO"} /\ a.k = "p" /\ ~NearUnit(Vec(a.h))
                   \/ f = "mul" /\ b.k \in {"h", "p"} /\ REq(VMax(Vec(b.h)), R(0)) \* 0 is no point
     IN
     /\ ChkV("refusal", Line.exc = refuse \/ (f \in {"uav", "setUO"} /\ a.k = "p" /\ NearUnit(Vec(a.h)) /\ FarFromUnit(Vec(a.h))), f)
     /\ Chk("operands unchanged", (f \in InPlace /\ ~Line.exc) \/ Line.ra = a)
     /\ Chk("operands unchanged", (f \in InPlace /\ Line.a = Line.b) \/ Line.rb = b)
     /\ IF Line.exc THEN UNCHANGED reg
        ELSE IF f = "view" THEN Chk("finite", Fin) /\ View(a) /\ UNCHANGED reg
        ELSE IF f = "uav" THEN
             LET S == MScale(R(4), MT(QJac(Vec(a.h)))) IN
             Chk("covariance of oplus", LMNear(Line.y[1], Quad(S, Mat(a.U)), QuadSc(S, Mat(a.U)), 43)) /\ UNCHANGED reg
        ELSE /\ Matches(Line.rr, Result(f, a, b, [i \in 1..Len(Line.x) |-> Col(Mat(Line.x[i]))]))
             /\ (Line.rr.k \in {"T", "U"} => Chk("unit quaternion", Near(VSq(Rq(Line.rr)), R(1), R(1), 40)))
             /\ reg' = [reg EXCEPT ![Line.r] = Line.rr]

Next == Step /\ (TBegin \/ TF \/ TSet \/ TReg)
=============================================================================
