------------------------------ MODULE ExprTrace ------------------------------
(***************************************************************************)
(* Expression graphs: each node is a formula over the values of earlier    *)
(* nodes, the leaves are design variables.  The specification evaluates    *)
(* the graph exactly; the derivative by a component of a minimal update is *)
(* the central difference of the exact value, so close (2^-H) that its     *)
(* error lies far below that of double arithmetic.                         *)
(***************************************************************************)
EXTENDS Rotations, Trc, FiniteSets

VARIABLES dv, nd
vars == <<l, dv, nd>>
\* dv[i] = [kind, x (value), old, pat, n, active, mag];  nd[i] = [f, a, c, d (index of the variable), deps]

B == 170
H == 56
K == 31
Hh == RPow2(-H)

\* ----------------------------------------------------------- design variables
Full(pat) == \A k \in 1..9 : RSign(pat[1 + ((k - 1) \div 3)][1 + ((k - 1) % 3)]) # 0
\* the free cells of a matrix in the order of its minimal parameters: row by row, a full matrix column by column
Cells(pat) ==
  IF Full(pat) THEN [k \in 1..9 |-> <<1 + ((k - 1) % 3), 1 + ((k - 1) \div 3)>>] ELSE
  SelectSeq([k \in 1..9 |-> <<1 + ((k - 1) \div 3), 1 + ((k - 1) % 3)>>], LAMBDA rc : RSign(pat[rc[1]][rc[2]]) # 0)
Plus(v, t) ==
  CASE v.kind \in {"scalar", "point", "mpoint", "vec1", "vec3", "vec4", "mvec3"} -> [i \in 1..Len(v.x) |-> <<RAdd(v.x[i][1], t[i])>>]
    [] v.kind \in {"rot", "mrot", "hom", "mhom"} -> LET q == QUpdate([i \in 1..4 |-> v.x[i][1]], t, B) IN [i \in 1..4 |-> <<q[i]>>]
    [] v.kind = "dir" -> MRnd(MM(v.x, MT(YPR2C(<<R(0), t[1], t[2]>>, B))), B)
    [] v.kind = "matb" -> LET cs == Cells(v.pat) IN
         [r \in 1..3 |-> [c \in 1..3 |-> RAdd(v.x[r][c],
            IF RSign(v.pat[r][c]) = 0 THEN R(0) ELSE t[CHOOSE k \in 1..Len(cs) : cs[k] = <<r, c>>])]]
Dim(kind, pat) ==
  CASE kind \in {"scalar", "vec1"} -> 1
    [] kind \in {"point", "mpoint", "vec3", "mvec3", "rot", "mrot", "hom", "mhom"} -> 3
    [] kind = "vec4" -> 4
    [] kind = "dir" -> 2
    [] kind = "matb" -> Len(Cells(pat))
Col(x) == [i \in 1..Len(x) |-> x[i][1]]
DvVal(v) ==
  CASE v.kind = "scalar" -> v.x[1][1]
    [] v.kind \in {"rot", "mrot"} -> Q2C(Col(v.x))
    [] v.kind = "dir" -> [i \in 1..3 |-> RMul(v.mag, v.x[i][3])]
    [] v.kind = "matb" -> v.x
    [] OTHER -> Col(v.x)

\* ---------------------------------------------------------------------- nodes
Cc(n) == n.c
Node(n, X, dvs) ==   \* X[i]: the values of the arguments
  CASE n.f = "dv" -> DvVal(dvs[n.d])
    [] n.f \in {"const_s", "const_e", "const_h", "const_t"} -> Cc(n)
    [] n.f = "const_h3" -> Cc(n) \o <<R(1)>>
    [] n.f = "s_add" -> RAdd(X[1], X[2])
    [] n.f = "s_sub" -> RSub(X[1], X[2])
    [] n.f = "s_mul" -> RMul(X[1], X[2])
    [] n.f = "s_div" -> RDiv(X[1], X[2])
    [] n.f = "s_addc" -> RAdd(X[1], Cc(n))
    [] n.f = "s_subc" -> RSub(X[1], Cc(n))
    [] n.f = "s_mulc" -> RMul(X[1], Cc(n))
    [] n.f = "s_divc" -> RDiv(X[1], Cc(n))
    [] n.f = "e_add" -> VAdd(X[1], X[2])
    [] n.f = "e_sub" -> VSub(X[1], X[2])
    [] n.f = "e_cross" -> Cross(X[1], X[2])
    [] n.f = "e_elem" -> [i \in 1..3 |-> RMul(X[1][i], X[2][i])]
    [] n.f = "e_neg" -> VNeg(X[1])
    [] n.f = "e_subc" -> VSub(X[1], Cc(n))
    [] n.f = "e_scale" -> VScale(X[2], X[1])
    [] n.f = "e_hom" -> X[1] \o <<R(1)>>
    [] n.f = "h_euc" -> VScale(RDiv(R(1), X[1][4]), SubSeq(X[1], 1, 3))
    [] n.f = "r_mul" -> MM(X[1], X[2])
    [] n.f = "r_inv" -> MT(X[1])
    [] n.f = "r_rot" -> MV(X[1], X[2])
    [] n.f = "r_rv" -> C2A(X[1], B)
    [] n.f = "r_ypr" -> C2YPR(X[1], B)
    [] n.f = "r_rod" -> C2Rod(X[1])
    [] n.f = "t_make" -> MkT(X[1], X[2])
    [] n.f = "t_mul" -> MM(X[1], X[2])
    [] n.f = "t_inv" -> TInv(X[1])
    [] n.f = "t_rot" -> TC(X[1])
    [] n.f = "t_pos" -> Tt(X[1])
    [] n.f = "t_hom" -> MV(X[1], X[2])
    [] n.f = "m_mul" -> MV(X[1], X[2])
    [] n.f = "v_euc" -> X[1]
    [] n.f = "w_sca" -> X[1][1]
    [] n.f = "u_rot" -> Q2C(QNormalised(X[1], B))
Kind(n) ==
  CASE n.f = "dv" -> n.k
    [] n.f \in {"const_s", "s_add", "s_sub", "s_mul", "s_div", "s_addc", "s_subc", "s_mulc", "s_divc", "w_sca"} -> "s"
    [] n.f \in {"const_h", "const_h3", "e_hom", "t_hom"} -> "h"
    [] n.f \in {"r_mul", "r_inv", "t_rot", "u_rot"} -> "r"
    [] n.f \in {"const_t", "t_make", "t_mul", "t_inv"} -> "t"
    [] OTHER -> "e"
DvKind(kind) == CASE kind = "scalar" -> "s" [] kind \in {"rot", "mrot"} -> "r" [] kind = "matb" -> "m" [] OTHER -> "e"
Rounded(k, v) == CASE k = "s" -> RRnd(v, B) [] k \in {"r", "t", "m"} -> MRnd(v, B) [] OTHER -> VRnd(v, B)
\* the values of node i and of what it depends on
EvalAll(i, dvs) ==
  LET RECURSIVE E(_)
      E(k) == IF k = 0 THEN <<>>
              ELSE LET p == E(k - 1)
                       n == nd[k]
                       v == IF k # i /\ k \notin nd[i].sub THEN R(0)
                            ELSE Rounded(Kind(n), Node(n, [j \in 1..Len(n.a) |-> p[n.a[j]]], dvs))
                   IN  Append(p, Force(v))
  IN  E(i)
Eval(i, dvs) == EvalAll(i, dvs)[i]
AbsMax(k, v) == CASE k = "s" -> RAbs(v) [] k \in {"r", "t", "m"} -> MMax(v) [] OTHER -> VMax(v)

\* the change of the value, as the columns of a Jacobian measure it
Change(k, hi, lo, v) ==
  LET f == RDiv(RPow2(H), R(2))
  IN  CASE k = "s" -> <<RMul(f, RSub(hi, lo))>>
        [] k = "r" -> VecOfChange(MScale(f, MSub(hi, lo)), v)
        [] k = "t" -> TChange(MScale(f, MSub(hi, lo)), v)
        [] OTHER -> VScale(f, VSub(hi, lo))
Unit(n, j, s) == [i \in 1..n |-> IF i = j THEN s ELSE R(0)]
Deriv(F(_), k, d, v) ==
  LET n == dv[d].n
      cols == Force([j \in 1..n |-> Change(k, F([dv EXCEPT ![d].x = Plus(dv[d], Unit(n, j, Hh))]),
                                           F([dv EXCEPT ![d].x = Plus(dv[d], Unit(n, j, RNeg(Hh)))]), v)])
  IN  MT(cols)
\* the Jacobian of node i by variable d
Jac(i, d, v) == LET F(dvs) == Eval(i, dvs) IN Deriv(F, Kind(nd[i]), d, v)

\* ---------------------------------------------------------------------- trace
LM(x) == IF x = <<>> THEN <<>> ELSE Mat(x)
\* exactly the same doubles
SameM(a, b) == a = b
TDv == /\ Is("dv")
       /\ LET x == Mat(Line.p)
              pat == LM(Line.pat)
              mag == IF Line.kind = "dir" THEN RSqrt(VSq(Vec(Line.val)), B) ELSE R(1)
              k == [kind |-> Line.kind, x |-> x, lit |-> Line.p, old |-> Line.p, pat |-> pat, n |-> Line.n, active |-> TRUE, mag |-> mag]
              val == DvVal(k)
              kk == IF Line.kind = "vec1" THEN "e" ELSE DvKind(Line.kind)
          IN  /\ Chk("the number of minimal parameters", Line.n = Dim(Line.kind, pat))
              /\ Chk("the value of the variable", CASE kk = "s" -> LNear(Line.val, val, RAbs(val), K)
                        [] kk \in {"r", "m"} -> LMNear(Line.val, val, MMax(val), K)
                        [] OTHER -> LVNear(Line.val, val, VMax(val), K))
              /\ Chk("a homogeneous point is kept at unit length",
                     Line.kind \in {"hom", "mhom"} => Near(VSq(Col(x)), R(1), R(1), 48))
              /\ dv' = Append(dv, k)
              /\ nd' = Append(nd, [f |-> "dv", k |-> DvKind(Line.kind), a |-> <<>>, c |-> R(0), d |-> Len(dv) + 1,
                                   deps |-> {Len(dv) + 1}, sub |-> {}])
Const(f, c) == CASE f \in {"const_s", "s_addc", "s_subc", "s_mulc", "s_divc"} -> RX(c)
                 [] f \in {"const_e", "const_h", "const_h3", "e_subc"} -> Vec(c)
                 [] f = "const_t" -> Mat(c)
                 [] OTHER -> R(0)
TNode == /\ Is("node")
         /\ LET deps == UNION {nd[Line.a[j]].deps : j \in 1..Len(Line.a)}
                subs == UNION {nd[Line.a[j]].sub \cup {Line.a[j]} : j \in 1..Len(Line.a)}
            IN  /\ Chk("the design variables of the expression", {Line.dvs[j] : j \in 1..Len(Line.dvs)} = deps)
                /\ nd' = Append(nd, [f |-> Line.f, k |-> "", a |-> Line.a, c |-> Const(Line.f, Line.c), d |-> 0, deps |-> deps, sub |-> subs])
         /\ UNCHANGED dv
Live(i) == {d \in nd[i].deps : dv[d].active}
JMax(J) == LET RECURSIVE M(_)
               M(S) == IF S = {} THEN R(1) ELSE LET d == CHOOSE d \in S : TRUE IN RMax(MMax(J[d]), M(S \ {d}))
           IN  M(DOMAIN J)
\* how large the numbers get on the way
Scale(vals, i) == LET RECURSIVE M(_)
                      M(S) == IF S = {} THEN R(1) ELSE LET j == CHOOSE j \in S : TRUE IN RMax(AbsMax(Kind(nd[j]), vals[j]), M(S \ {j}))
                  IN  M(nd[i].sub \cup {i})
JacsOk(name, obs, J, scale) ==
  \A d \in 1..Len(dv) :
    IF d \in DOMAIN J THEN ChkV(name, LMNear(obs[d], J[d], scale, K), <<d>>)
    ELSE ChkV("variables that are inactive or do not occur have no Jacobian", obs[d] = "none", <<d>>)
TEval == /\ Is("eval")
         /\ LET i == Line.i
                vals == EvalAll(i, dv)
                v == vals[i]
                k == Kind(nd[i])
                J == Force([d \in Live(i) |-> Jac(i, d, v)])
                s1 == Scale(vals, i)
                s == RMul(RMul(s1, s1), JMax(J))
            IN  /\ Chk("the value", CASE k = "s" -> LNear(Line.v, v, s, K) [] k \in {"r", "t", "m"} -> LMNear(Line.v, v, s, K) [] OTHER -> LVNear(Line.v, v, s, K))
                /\ IF k = "m" THEN TRUE
                   ELSE LET M == Mat(Line.M) IN
                        /\ Chk("evaluating Jacobians changes nothing", Line.same /\ Line.again)
                        /\ JacsOk("the Jacobian", Line.J, J, s)
                        /\ JacsOk("the chain rule", Line.JM, Force([d \in DOMAIN J |-> MM(M, J[d])]), RMul(s, RAdd(R(1), MMax(M))))
         /\ UNCHANGED <<dv, nd>>
TUpdate == /\ Is("update")
           /\ LET d == Line.i
                  x == Plus(dv[d], Vec(Line.d))
                  w == Mat(Line.p)
              IN  /\ ChkV("an update is the minimal perturbation asked for", LMNear(Line.p, x, MMax(x), 46), dv[d].kind)
                  /\ dv' = [dv EXCEPT ![d].x = w, ![d].old = dv[d].lit, ![d].lit = Line.p]
           /\ UNCHANGED nd
TRevert == /\ Is("revert")
           /\ LET d == Line.i IN
              /\ ChkV("reverting restores the value exactly", Line.p = dv[d].old, dv[d].kind)
              /\ dv' = [dv EXCEPT ![d].x = Mat(dv[d].old), ![d].lit = dv[d].old]
           /\ UNCHANGED nd
TSet == /\ Is("set")
        /\ LET d == Line.i IN
           /\ ChkV("parameters read back as set", Line.p = Line.x, dv[d].kind)
           /\ dv' = [dv EXCEPT ![d].x = Mat(Line.p), ![d].old = dv[d].lit, ![d].lit = Line.p]
        /\ UNCHANGED nd
TActive == Is("active") /\ dv' = [dv EXCEPT ![Line.i].active = Line.a] /\ UNCHANGED nd

\* the update that leads from y to the variable
Minus(v, x, y) ==
  IF v.kind \in {"rot", "mrot", "hom", "mhom"} THEN Q2A(QPlus(Col(x), QInv(Col(y))), B)
  ELSE IF v.kind = "matb" THEN VZero(0)
  ELSE [i \in 1..Len(x) |-> RSub(x[i][1], y[i][1])]
TMinDiff == /\ Is("mindiff")
            /\ LET v == dv[Line.i]
                   y == Mat(Line.x)
                   d == Minus(v, v.x, y)
                   col(j, s) == Minus(v, Plus(v, Unit(v.n, j, s)), y)
                   J == MT(Force([j \in 1..v.n |-> VScale(RDiv(RPow2(H), R(2)), VSub(col(j, Hh), col(j, RNeg(Hh))))]))
               IN  /\ ChkV("the difference to another value", LVNear(Line.d, d, VMax(d), 30) /\ Line.same, v.kind)
                   /\ ChkV("the Jacobian of that difference", LMNear(Line.J, J, MMax(J), 24), v.kind)
            /\ UNCHANGED <<dv, nd>>
\* stock error terms
TErr == /\ Is("err")
        /\ LET i == Line.i
               k == Kind(nd[i])
               x == IF k = "e" THEN Vec(Line.x) ELSE <<>>
               P == IF k = "t" THEN TInv(Mat(Line.xT)) ELSE <<>>
               F(dvs) == IF k = "e" THEN VSub(Eval(i, dvs), x)
                         ELSE LET E == MM(Eval(i, dvs), P) IN Tt(E) \o C2A(TC(E), B)
               e == F(dv)
               J == Force([d \in Live(i) |-> Deriv(F, "e", d, e)])
               s1 == RMax(Scale(EvalAll(i, dv), i), VMax(e))
               s == RMul(RMul(s1, s1), JMax(J))
           IN  /\ Chk("the error is the difference to the prior", LVNear(Line.e, e, s, K))
               /\ Chk("its square", LNear(Line.c, VSq(e), RMul(s, s), K))
               /\ JacsOk("the Jacobian of the error", Line.J, J, s)
        /\ UNCHANGED <<dv, nd>>

Init == l = 1 /\ dv = <<>> /\ nd = <<>>
TBegin == Is("begin") /\ dv' = <<>> /\ nd' = <<>>
Next == Step /\ (TBegin \/ TDv \/ TNode \/ TEval \/ TUpdate \/ TRevert \/ TSet \/ TActive \/ TMinDiff \/ TErr)
=============================================================================
