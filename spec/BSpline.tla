------------------------------- MODULE BSpline -------------------------------
(***************************************************************************)
(* B-splines over exact rationals.  A curve is an order k, a nondecreasing *)
(* knot sequence T and one coefficient (a vector) per basis function.  On  *)
(* a span [T[i], T[i+1]) the k basis functions that do not vanish are the  *)
(* polynomials Basis(T, k, i) in u = (t - T[i]) / (T[i+1] - T[i]), given   *)
(* by the Cox-de Boor recursion.  A polynomial is its coefficients, the    *)
(* constant one first.                                                     *)
(***************************************************************************)
EXTENDS LinAlg

\* ------------------------------------------------------------- polynomials
PAdd(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
\* p * (a0 + a1 u)
PLin(p, a0, a1) == [i \in 1..Len(p) + 1 |->
  RAdd(IF i <= Len(p) THEN RMul(a0, p[i]) ELSE R(0), IF i >= 2 THEN RMul(a1, p[i - 1]) ELSE R(0))]
PZero(n) == [i \in 1..n |-> R(0)]
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(p, u, i) == IF i > Len(p) THEN R(0) ELSE RAdd(p[i], RMul(u, PEvalFrom(p, u, i + 1)))
PEval(p, u) == PEvalFrom(p, u, 1)
PDiff(p) == IF Len(p) <= 1 THEN <<R(0)>> ELSE [i \in 1..Len(p) - 1 |-> RMul(R(i), p[i + 1])]
RECURSIVE PDer(_, _)
PDer(p, d) == IF d = 0 THEN p ELSE Force(PDer(PDiff(p), d - 1))
PInt(p) == <<R(0)>> \o [i \in 1..Len(p) |-> RDiv(p[i], R(i))]
PMul(a, b) == Force([n \in 1..Len(a) + Len(b) - 1 |->
  RSum([i \in 1..Len(a) |-> IF n - i + 1 \in 1..Len(b) THEN RMul(a[i], b[n - i + 1]) ELSE R(0)])])
PInt01(p) == RSum([i \in 1..Len(p) |-> RDiv(p[i], R(i))])

\* --------------------------------------------------------------- the basis
\* rational numbers are kept short; the design model replaces this by no rounding at all
Tidy(v) == VRnd(v, 220)
RECURSIVE BasisUp(_, _, _)
BasisUp(T, m, i) ==
  IF m = 1 THEN <<<<R(1)>>>> ELSE
  LET P == BasisUp(T, m - 1, i)
      D == RSub(T[i + 1], T[i])
  IN Force([j \in 1..m |->
       LET s == i - m + j
           dl == RSub(T[s + m - 1], T[s])
           dr == RSub(T[s + m], T[s + 1])
           L == IF j = 1 THEN PZero(m) ELSE PLin(P[j - 1], RDiv(RSub(T[i], T[s]), dl), RDiv(D, dl))
           Rt == IF j = m THEN PZero(m) ELSE PLin(P[j], RDiv(RSub(T[s + m], T[i]), dr), RNeg(RDiv(D, dr)))
       IN Tidy(PAdd(L, Rt))])
Basis(T, k, i) == BasisUp(T, k, i)

TMin(T, k) == T[k]
TMax(T, k) == T[Len(T) - k + 1]
Segments(T, k) == IF Len(T) - 2 * k + 1 > 0 THEN Len(T) - 2 * k + 1 ELSE 0
Nonempty(T, i) == RLt(T[i], T[i + 1])
\* the span a time lies on; the end of the interval belongs to the last span that is not empty
SpanOf(T, k, t) ==
  LET n == Len(T)
      S == IF REq(t, TMax(T, k)) THEN {i \in k..n - k : RLt(T[i], t)} ELSE {i \in k..n - k : RLe(T[i], t)}
  IN CHOOSE i \in S : \A j \in S : j <= i
\* the derivatives of order d of the k basis functions at t
Weights(T, k, t, d) ==
  LET i == SpanOf(T, k, t)
      D == RSub(T[i + 1], T[i])
      u == RDiv(RSub(t, T[i]), D)
      P == Basis(T, k, i)
      RECURSIVE Pw(_)
      Pw(e) == IF e = 0 THEN R(1) ELSE RMul(D, Pw(e - 1))
  IN Force([j \in 1..k |-> RDiv(PEval(PDer(P[j], d), u), Pw(d))])
\* the first coefficient (from 1) of the span that starts at knot i
First(k, i) == i - k + 1
Comb(w, c, f) == Force([r \in 1..Len(c[1]) |-> RSum([j \in 1..Len(w) |-> RMul(w[j], c[f + j - 1][r])])])
Value(T, k, c, t, d) == Comb(Weights(T, k, t, d), c, First(k, SpanOf(T, k, t)))

\* the integral of N_a^(d) N_b^(d) over the span i
GramSpan(T, k, i, d) ==
  LET D == RSub(T[i + 1], T[i])
      P == Basis(T, k, i)
      Q == Force([j \in 1..k |-> PDer(P[j], d)])
      RECURSIVE Pw(_)
      Pw(e) == IF e = 0 THEN R(1) ELSE RMul(RMul(D, D), Pw(e - 1))
  IN IF ~Nonempty(T, i) THEN MZero(k, k)
     ELSE Force([a \in 1..k |-> [b \in 1..k |-> RDiv(RMul(D, PInt01(PMul(Q[a], Q[b]))), Pw(d))]])
Gram(T, k, d) ==
  LET n == Len(T) - k
      G == Force([s \in 1..Segments(T, k) |-> GramSpan(T, k, s + k - 1, d)])
  IN Force([a \in 1..n |-> [b \in 1..n |->
       RSum([s \in 1..Segments(T, k) |-> IF a - s + 1 \in 1..k /\ b - s + 1 \in 1..k THEN G[s][a - s + 1][b - s + 1] ELSE R(0)])]])
\* the integral of the curve from the start of the interval to t
Primitive(T, k, c, t) ==
  LET i == SpanOf(T, k, t)
      Part(s, u) == LET D == RSub(T[s + 1], T[s]) P == Basis(T, k, s) IN
        IF ~Nonempty(T, s) THEN VZero(Len(c[1]))
        ELSE Comb([j \in 1..k |-> RMul(D, PEval(PInt(P[j]), u))], c, First(k, s))
      RECURSIVE Sum(_)
      Sum(s) == IF s < k THEN VZero(Len(c[1])) ELSE VAdd(Sum(s - 1), Part(s, R(1)))
  IN VAdd(Sum(i - 1), Part(i, RDiv(RSub(t, T[i]), RSub(T[i + 1], T[i]))))

\* ------------------------------------------------------------ growing, shrinking
AddKnots(T, k, t) ==
  LET n == Len(T)
      e == n - k + 1          \* the knot at the end of the interval
      dt == RSub(t, T[e])
  IN [i \in 1..n + 1 |-> IF i <= e THEN T[i] ELSE RAdd(t, RMul(R(i - e - 1), dt))]
\* the last two coefficients are chosen so that the joint stays and the new end is p
AddCoefs(T2, k, c, p0, p, t) ==
  LET n == Len(T2) - k
      t0 == T2[Len(T2) - k]
      w0 == Weights(T2, k, t0, 0)
      w1 == Weights(T2, k, t, 0)
      i0 == SpanOf(T2, k, t0)
      fixed0 == IF k = 2 THEN VZero(Len(p)) ELSE Comb(SubSeq(w0, 1, k - 2), c, First(k, i0))
      x == VScale(RDiv(R(1), w0[k - 1]), VSub(p0, fixed0))
      fixed1 == IF k = 2 THEN VZero(Len(p)) ELSE Comb(SubSeq(w1, 1, k - 2), c, First(k, i0))
      y == VScale(RDiv(R(1), w1[k]), VSub(p, VAdd(fixed1, VScale(w1[k - 1], x))))
  IN SubSeq(c, 1, n - 2) \o <<x, y>>
=============================================================================
