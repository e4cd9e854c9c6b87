------------------------------ MODULE PoseTrace ------------------------------
(***************************************************************************)
(* A curve of poses: each value is a position and the parameters of a      *)
(* rotation.  Everything BSplineTrace says of curves holds; on top of it    *)
(* the poses, velocities and accelerations at a time are those of the      *)
(* exact curve, and a change of any coefficient changes them as their      *)
(* Jacobians say.  A small change d of a pose T is (1 + [d]) T: first the   *)
(* translation, then the rotation (1 - [d]x).                               *)
(***************************************************************************)
EXTENDS BSplineTrace
G == INSTANCE Geometry

VARIABLE kind
pvars == <<l, k, T, c, dvs, old, kind>>

CT(C, t) == [i \in 1..4 |-> IF i = 4 THEN <<R(0), R(0), R(0), R(1)>> ELSE C[i] \o <<t[i]>>]
RotOf(M) == [i \in 1..3 |-> SubSeq(M[i], 1, 3)]
PosOf(M) == [i \in 1..3 |-> M[i][4]]
Rows3(M, i) == SubSeq(M, i, i + 2)
\* [A, B] and [A; B]
Beside(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]
SMatOf(t, S) == Beside(MId(3), MScale(R(-1), MM(CrossM(t), S))) \o Beside(MZero(3, 3), S)
\* the curve value v is the pose M (how well: the parametrisation decides)
PoseIs(v, M) == AllFinite(v) /\ LET p == Vec(v) X == Mat(M) q == SubSeq(p, 4, 6) IN
  SubSeq(p, 1, 3) = PosOf(X) /\ MNear(G!P2C(kind, q), RotOf(X), G!Cond(kind, q), 42)

\* everything about the pose at the time of this line
AtPose ==
  LET t == Clamp(RX(Line.t))
      i == SpanOf(T, k, t)
      f == First(k, i)
      w == Force([d \in 1..3 |-> VRnd(Weights(T, k, t, d - 1), 200)])
      val == Force([d \in 1..3 |-> VRnd(Comb(w[d], c, f), 200)])
      q == SubSeq(val[1], 4, 6)
      C == G!P2C(kind, q)
      S == G!SOf(kind, q)
  IN [f |-> f, m |-> RAdd(R(1), MMax(Loc(i))), s |-> Force([d \in 1..3 |-> Sc(i, d - 1)]), W |-> Force([d \in 1..3 |-> Spread(w[d], 6)]),
      p |-> Force([d \in 1..3 |-> SubSeq(val[d], 1, 3)]), q |-> Force([d \in 1..3 |-> SubSeq(val[d], 4, 6)]), C |-> C, S |-> S]
\* scales: of values and of Jacobians (the amplification by the parametrisation included)
Amp(A) == RMul(RAdd(R(1), MMax(A.S)), RAdd(R(1), MMax(A.S)))
ScV(A, d) == RMul(Amp(A), RMul(R(8), RMul(A.m, RMul(A.m, RMul(A.s[1], A.s[d + 1])))))
JT(A) == MM(SMatOf(A.p[1], A.S), A.W[1])
JO(A) == MM(A.S, Rows3(A.W[1], 4))
TInv(A) == LET Ct == MT(A.C) IN CT(Ct, VNeg(MV(Ct, A.p[1])))
JI(A) == LET Ct == MT(A.C) ti == VNeg(MV(Ct, A.p[1])) IN
  MScale(R(-1), MM(Beside(Ct, MScale(R(-1), MM(CrossM(ti), Ct))) \o Beside(MZero(3, 3), Ct), JT(A)))
JInvO(A) == MScale(R(-1), MM(MT(A.C), JO(A)))
Turn(A, d) == VNeg(MV(A.S, A.q[d + 1]))                    \* angular velocity (d = 1)
JTurn(A, d) == MScale(R(-1), MM(G!AvJ(kind, A.q[1], A.q[d + 1]), Rows3(A.W[1], 4) \o Rows3(A.W[d + 1], 4)))
\* a vector of the world seen from the body, and its Jacobian
InBody(A, v) == MV(MT(A.C), v)
JInBody(A, v, J) == MAdd(MM(MT(A.C), J), MM(CrossM(InBody(A, v)), JInvO(A)))

Look(op, P) == Is(op) /\ UNCHANGED <<k, T, c, dvs, old, kind>> /\ Step /\ P
PoseT == Look("pose",
  LET good == InRange(Line.t) /\ Proper IN
  Chk("in range", Line.ok = good) /\
  (good =>
    \E A \in {AtPose} : LET
        X == Vec(Line.x)
        s0 == ScV(A, 0) s1 == ScV(A, 1) s2 == ScV(A, 2)
        tx == MV(CT(A.C, A.p[1]), X)
        V(names, e, s) == \A g \in names : LRel(Line[g], e, s, 40)
        M(names, e, s) == \A g \in names : LMRel(Line[g], e, s, 40)
    IN /\ Chk("transformation", M({"T", "T1"}, CT(A.C, A.p[1]), s0))
       /\ Chk("transformation jacobian", M({"JT"}, JT(A), s0))
       /\ Chk("inverse", M({"I", "I1"}, TInv(A), s0))
       /\ Chk("inverse jacobian", M({"JI"}, JI(A), s0))
       /\ Chk("orientation", M({"C", "C1"}, A.C, s0) /\ M({"D", "D1"}, MT(A.C), s0))
       /\ Chk("orientation jacobian", M({"JC"}, JO(A), s0))
       /\ Chk("inverse orientation jacobian", M({"JD"}, JInvO(A), s0))
       /\ Chk("linear", V({"p"}, A.p[1], s0) /\ V({"v"}, A.p[2], s1) /\ V({"a", "a1"}, A.p[3], s2))
       /\ Chk("linear, in the body", V({"vb"}, InBody(A, A.p[2]), s1) /\ V({"ab"}, InBody(A, A.p[3]), s2))
       /\ Chk("acceleration jacobian", M({"Ja"}, Rows3(A.W[3], 1), s2))
       /\ Chk("angular velocity", V({"w", "w1"}, Turn(A, 1), s1))
       /\ Chk("angular velocity jacobian", M({"Jw"}, JTurn(A, 1), s1))
       /\ Chk("angular velocity in the body", V({"wb", "wb1"}, InBody(A, Turn(A, 1)), s1))
       /\ Chk("angular velocity in the body jacobian", M({"Jwb"}, JInBody(A, Turn(A, 1), JTurn(A, 1)), s1))
       /\ Chk("transformed point", V({"Tx"}, tx, s0) /\ M({"Jx"}, MM(G!BoxM(tx), JT(A)), s0))
       /\ Chk("indices", \A g \in 1..Len(Line.ci) : Line.ci[g] = Ints((A.f - 1) * 6, (A.f + k - 1) * 6 - 1))))

\* the derivative of the angular velocity; leaving out the change of S is the listed finding
AngAcc == Look("angacc",
  LET good == InRange(Line.t) /\ Proper IN
  Chk("in range", Line.ok = good) /\
  (good =>
    \E A \in {AtPose} : LET
        w == VNeg(MV(G!AvJ(kind, A.q[1], A.q[2]), A.q[2] \o A.q[3]))
        lin == Turn(A, 2) J == JTurn(A, 2)
        s == RAdd(ScV(A, 2), RMul(ScV(A, 1), ScV(A, 1)))
        full == LRel(Line.b, InBody(A, w), s, 38) /\ LRel(Line.b1, InBody(A, w), s, 38) /\ LRel(Line.w1, w, s, 38)
        without == /\ LRel(Line.b, InBody(A, lin), s, 38) /\ LRel(Line.b1, InBody(A, lin), s, 38)
                   /\ LRel(Line.w1, lin, s, 38)
                   /\ LMRel(Line.Jb, JInBody(A, lin, J), s, 38) /\ LMRel(Line.Jw, J, s, 38)
                   /\ Line.cb = Ints((A.f - 1) * 6, (A.f + k - 1) * 6 - 1) /\ Line.cw = Line.cb
    IN /\ Chk("angular acceleration", full \/ without)
       /\ Chk("angular acceleration without the change of S", full)))

Tcv == Look("tcv",
  LET v == Vec(Line.v) p == SubSeq(v, 1, 3) q == SubSeq(v, 4, 6) C == G!P2C(kind, q) S == G!SOf(kind, q)
      s == RMul(RAdd(R(1), MMax(S)), RAdd(R(8), VMax(v)))
  IN /\ Chk("curve value to pose", LMRel(Line.T, CT(C, p), s, 44) /\ LMRel(Line.T1, CT(C, p), s, 44))
     /\ Chk("curve value to pose jacobian", LMRel(Line.J, SMatOf(p, S), s, 42))
     /\ Chk("pose to curve value", PoseIs(Line.back, Line.T)))

\* Jacobians by the variable: blocks of the Jacobian J by the local coefficients
BlocksAre(idx, ms, f, J, s) ==
  /\ Len(idx) = Len(ms) /\ Cardinality({idx[a] : a \in 1..Len(idx)}) = Len(idx)
  /\ \A a \in 1..Len(idx) : idx[a] \in f - 1..f + k - 2 /\
       LMRel(ms[a], [r \in 1..Len(J) |-> SubSeq(J[r], 1 + (idx[a] - f + 1) * 6, (idx[a] - f + 2) * 6)], s, 40)
  /\ \A j \in 1..k : (\E a \in 1..Len(idx) : idx[a] = f + j - 2) \/ \A r \in 1..Len(J) : REq(VMax(SubSeq(J[r], 1 + (j - 1) * 6, j * 6)), R(0))
Chained(n) == <<[q \in 1..n |-> R(q)], [q \in 1..n |-> R(2 - 3 * (q - 1))]>>
PExpr == Look("pexpr",
  LET good == InRange(Line.t) /\ Proper IN
  Chk("in range", Line.ok = good) /\
  (good =>
    \E A \in {AtPose} : LET
        g == Line.f
        n == IF g = "T" THEN 6 ELSE 3
        d == CASE g \in {"T", "R", "p"} -> 0 [] g \in {"v", "w"} -> 1 [] OTHER -> 2
        E == CASE g = "T" -> [v |-> CT(A.C, A.p[1]), J |-> JT(A)]
               [] g = "R" -> [v |-> A.C, J |-> JO(A)]
               [] g = "p" -> [v |-> [r \in 1..3 |-> <<A.p[1][r]>>], J |-> Rows3(A.W[1], 1)]
               [] g = "v" -> [v |-> [r \in 1..3 |-> <<A.p[2][r]>>], J |-> Rows3(A.W[2], 1)]
               [] g = "a" -> [v |-> [r \in 1..3 |-> <<A.p[3][r]>>], J |-> Rows3(A.W[3], 1)]
               [] g = "ab" -> [v |-> [r \in 1..3 |-> <<InBody(A, A.p[3])[r]>>], J |-> JInBody(A, A.p[3], Rows3(A.W[3], 1))]
               [] g = "w" -> [v |-> [r \in 1..3 |-> <<InBody(A, Turn(A, 1))[r]>>], J |-> JInBody(A, Turn(A, 1), JTurn(A, 1))]
        s == ScV(A, d)
    IN /\ ChkV("expression", LMRel(Line.x, E.v, s, 40), g)
       /\ ChkV("expression jacobian", BlocksAre(Line.ji, Line.jm, A.f, E.J, s), g)
       /\ ChkV("chain rule", BlocksAre(Line.ai, Line.am, A.f, MM(Chained(n), E.J), RMul(R(20), s)), g)
       /\ ChkV("expression variables", RangeOf(Line.ds) = A.f - 1..A.f + k - 2 /\ Len(Line.ds) = k
                                       /\ Line.gs = Ints(A.f - 1, A.f + k - 2) /\ Line.gi = Line.gs, g)))

\* the pose at a time that is a variable, moved away from where the expression was made
Margin == RPow2(-20)
TOff == Look("toff",
  LET t0 == RX(Line.t0) t == RX(Line.t) lo == RSub(t0, RX(Line.L)) hi == RAdd(t0, RX(Line.R))
      inside(x) == RLe(TMin(T, k), x) /\ RLt(x, TMax(T, k))
      must == RLe(lo, t) /\ RLe(t, hi) /\ inside(t)
  IN  /\ Chk("in range", (must => Line.ok) /\ (Line.ok => InRange(Line.t)))
      /\ Line.ok =>
         \E A \in {AtPose} : LET s == RAdd(ScV(A, 0), ScV(A, 1))
             n == Len(Line.ji)
             \* coefficients that the time cannot reach now have zero Jacobians; variable -1 is the time
             IsBlocks(idx, ms, J, rate, sc) ==
               /\ Cardinality({idx[a] : a \in 1..Len(idx)}) = Len(idx) /\ Len(ms) = Len(idx)
               /\ \A a \in 1..Len(idx) :
                    IF idx[a] = -1 THEN LMRel(ms[a], [r \in 1..Len(J) |-> <<rate[r]>>], sc, 40)
                    ELSE IF idx[a] \in A.f - 1..A.f + k - 2
                         THEN LMRel(ms[a], [r \in 1..Len(J) |-> SubSeq(J[r], 1 + (idx[a] - A.f + 1) * 6, (idx[a] - A.f + 2) * 6)], sc, 40)
                         ELSE AllFiniteM(ms[a]) /\ REq(MMax(Mat(ms[a])), R(0))
               /\ \A j \in -1..k - 2 : \E a \in 1..Len(idx) : idx[a] = IF j = -1 THEN -1 ELSE A.f + j
             rate == MV(SMatOf(A.p[1], A.S), A.p[2] \o A.q[2])
             Ch == Chained(6)
         IN /\ Chk("pose at a variable time", LMRel(Line.x, CT(A.C, A.p[1]), s, 40))
            /\ Chk("variable time jacobian", IsBlocks(Line.ji, Line.jm, JT(A), rate, s))
            /\ Chk("variable time chain rule", IsBlocks(Line.ai, Line.am, MM(Ch, JT(A)), MV(Ch, rate), RMul(R(20), s)))
            /\ Chk("variable time variables", {Line.ji[a] : a \in 1..n} \subseteq RangeOf(Line.ds)))

\* poses given to the changes of BSplineTrace
PoseInit == InitLine /\ (Has(Line, "P4") => Chk("initial poses", PoseIs(Line.p, Line.P4) /\ PoseIs(Line.q, Line.Q4)))
PoseAdd == (Add \/ Add2) /\ (Has(Line, "P4") => Chk("added pose", PoseIs(Line.p, Line.P4)))
PoseStart == Init /\ kind = ""
PoseNext ==
  \/ Begin /\ kind' = ""
  \/ New /\ kind' = Line.kind
  \/ (PoseInit \/ PoseAdd) /\ UNCHANGED kind
  \/ (Dv \/ Set \/ SetC \/ SetM \/ SetL \/ Vv \/ DvSet \/ DvUp \/ DvRev \/ Const \/ Fit \/ Rm \/ Span \/ LocAt \/ AtT) /\ UNCHANGED kind
  \/ PoseT \/ AngAcc \/ Tcv \/ PExpr \/ TOff
=============================================================================
