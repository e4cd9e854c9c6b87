------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors (sequences of rationals) and matrices (sequences of rows), and  *)
(* comparison of logged doubles with exact values.                         *)
(***************************************************************************)
EXTENDS Rat

\* logged vectors and matrices of "%a" strings
AllFinite(v) == \A i \in DOMAIN v : RIsFinite(v[i])
AllFiniteM(m) == \A i \in DOMAIN m : AllFinite(m[i])
Vec(v) == Force([i \in 1..Len(v) |-> RX(v[i])])
Mat(m) == Force([i \in 1..Len(m) |-> Vec(m[i])])

NCols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
VZero(n) == [i \in 1..n |-> R(0)]
MZero(r, c) == [i \in 1..r |-> VZero(c)]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)]]
VAdd(a, b) == Force([i \in 1..Len(a) |-> RAdd(a[i], b[i])])
VSub(a, b) == Force([i \in 1..Len(a) |-> RSub(a[i], b[i])])
VScale(f, a) == Force([i \in 1..Len(a) |-> RMul(f, a[i])])
VNeg(a) == Force([i \in 1..Len(a) |-> RNeg(a[i])])
MAdd(a, b) == Force([i \in 1..Len(a) |-> VAdd(a[i], b[i])])
MSub(a, b) == Force([i \in 1..Len(a) |-> VSub(a[i], b[i])])
MScale(f, a) == Force([i \in 1..Len(a) |-> VScale(f, a[i])])
MT(a) == Force([j \in 1..NCols(a) |-> [i \in 1..Len(a) |-> a[i][j]]])
MV(a, x) == Force([i \in 1..Len(a) |-> RDot(a[i], x)])
MM(a, b) == LET t == MT(b) IN Force([i \in 1..Len(a) |-> [j \in 1..Len(t) |-> RDot(a[i], t[j])]])
MTV(a, x) == MV(MT(a), x)
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                 RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                 RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CrossM(a) == <<<<R(0), RNeg(a[3]), a[2]>>, <<a[3], R(0), RNeg(a[1])>>, <<RNeg(a[2]), a[1], R(0)>>>>
VRnd(a, b) == Force([i \in 1..Len(a) |-> RRnd(a[i], b)])
MRnd(a, b) == Force([i \in 1..Len(a) |-> VRnd(a[i], b)])
VCat(s) == LET RECURSIVE C(_)
               C(i) == IF i = 0 THEN <<>> ELSE C(i - 1) \o s[i]
           IN  C(Len(s))
\* columns a..b of m, and m with the columns of n appended
MCols(m, a, b) == [i \in 1..Len(m) |-> SubSeq(m[i], a, b)]
HCat(m, n) == [i \in 1..Len(m) |-> m[i] \o n[i]]

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RECURSIVE VMaxTo(_, _)
VMaxTo(v, i) == IF i = 0 THEN R(0) ELSE RMax(VMaxTo(v, i - 1), RAbs(v[i]))
\* largest magnitude
VMax(v) == VMaxTo(v, Len(v))
MMax(m) == VMax(Force([i \in 1..Len(m) |-> VMax(m[i])]))
VSq(v) == RDot(v, v)

Eps(k) == RPow2(-k)
\* |obs - exact| <= 2^-k max(1, scale)
Near(obs, exact, scale, k) == RLe(RAbs(RSub(obs, exact)), RMul(Eps(k), RMax(R(1), scale)))
VNear(obs, exact, scale, k) ==
  /\ Len(obs) = Len(exact)
  /\ \A i \in 1..Len(obs) : Near(obs[i], exact[i], scale, k)
MNear(obs, exact, scale, k) ==
  /\ Len(obs) = Len(exact)
  /\ \A i \in 1..Len(obs) : VNear(obs[i], exact[i], scale, k)
\* |obs - exact| <= 2^-k scale, scale > 0
NearRel(obs, exact, scale, k) == RLe(RAbs(RSub(obs, exact)), RMul(Eps(k), scale))
VNearRel(obs, exact, scale, k) ==
  Len(obs) = Len(exact) /\ \A i \in 1..Len(obs) : NearRel(obs[i], exact[i], scale, k)
MNearRel(obs, exact, scale, k) ==
  Len(obs) = Len(exact) /\ \A i \in 1..Len(obs) : VNearRel(obs[i], exact[i], scale, k)
\* logged values against exact ones
LNear(s, exact, scale, k) == RIsFinite(s) /\ Near(RX(s), exact, scale, k)
LVNear(s, exact, scale, k) == Len(s) = Len(exact) /\ AllFinite(s) /\ VNear(Vec(s), exact, scale, k)
LMNear(s, exact, scale, k) == Len(s) = Len(exact) /\ AllFiniteM(s) /\ MNear(Mat(s), exact, scale, k)
\* whether a symmetric positive semidefinite matrix is singular, or so close to it that
\* double arithmetic cannot tell: a pivot of the elimination drops below 2^-k of the largest entry
RECURSIVE PivotsAbove(_, _)
PivotsAbove(A, limit) ==
  IF A = <<>> THEN TRUE
  ELSE LET n == Len(A)
           p == CHOOSE i \in 1..n : \A j \in 1..n : RLe(A[j][j], A[i][i])
           idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : i # p)
       IN  /\ RLt(limit, A[p][p])
           /\ PivotsAbove(Force([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
                  RRnd(RSub(A[idx[i]][idx[j]], RDiv(RMul(A[idx[i]][p], A[p][idx[j]]), A[p][p])), 200)]]), limit)
NearlySingular(A, k) == A # <<>> /\ ~PivotsAbove(A, RMul(RPow2(-k), MMax(A)))
=============================================================================
