------------------------------ MODULE BSplineMC ------------------------------
(***************************************************************************)
(* Laws of the curve, over every small integer knot sequence (knots may    *)
(* coincide) and every sequence of segment additions and removals.         *)
(***************************************************************************)
EXTENDS BSpline, Naturals, Integers, Sequences, FiniteSets

CONSTANTS Orders, Width, MaxSegs, Steps

Same(v) == v

VARIABLES k, T, c, was, last, n
vars == <<k, T, c, was, last, n>>

Lens(o) == 2 * o..2 * o + MaxSegs - 1
RECURSIVE Up(_, _)
\* nondecreasing sequences, as increments
Up(len, lo) == IF len = 0 THEN {<<>>} ELSE
  UNION {{<<x>> \o s : s \in Up(len - 1, x)} : x \in lo..(IF lo + 1 > Width THEN Width ELSE lo + 1)}
Coef(j) == <<R(((7 * j * j + 3 * j) % 11) - 5), R((j * j * j) % 7)>>
Knots(o) == {q \in UNION {Up(m, 0) : m \in Lens(o)} : q[1] = 0 /\ q[o] < q[Len(q) - o + 1]}
Init ==
  /\ k \in Orders
  /\ \E q \in Knots(k) : T = [i \in 1..Len(q) |-> R(q[i])]
  /\ c = [j \in 1..Len(T) - k |-> Coef(j)]
  /\ was = [T |-> T, c |-> c]
  /\ last = "init" /\ n = 0
Add(g, p) ==
  /\ k >= 2
  /\ Nonempty(T, Len(T) - k)
  /\ LET t == RAdd(TMax(T, k), R(g)) T2 == AddKnots(T, k, t) IN
       /\ T' = T2
       /\ c' = AddCoefs(T2, k, c \o <<p>>, Value(T, k, c, TMax(T, k), 0), p, t)
  /\ was' = [T |-> T, c |-> c]
  /\ last' = "add"
Remove ==
  /\ Segments(T, k) > 1
  /\ RLt(T[k + 1], TMax(T, k))
  /\ T' = Tail(T) /\ c' = Tail(c)
  /\ was' = [T |-> T, c |-> c]
  /\ last' = "remove"
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED k /\ (Remove \/ \E g \in 1..2 : Add(g, <<R(2), R(-3)>>))

\* ----------------------------------------------------------------- the laws
Spans == {i \in k..Len(T) - k : Nonempty(T, i)}
Us == {RQ(j, 4) : j \in 0..4}
Half(i) == RDiv(RAdd(T[i], T[i + 1]), R(2))
UnitySum == \A i \in Spans : \A u \in Us : REq(RSum([j \in 1..k |-> PEval(Basis(T, k, i)[j], u)]), R(1))
NonNegative == \A i \in Spans : \A u \in Us : \A j \in 1..k : RSign(PEval(Basis(T, k, i)[j], u)) >= 0
\* multiplicity of a knot value
Mult(x) == Cardinality({i \in 1..Len(T) : REq(T[i], x)})
Scaled(P, d, D) == LET RECURSIVE Pw(_)
                       Pw(e) == IF e = 0 THEN R(1) ELSE RMul(D, Pw(e - 1))
                   IN RDiv(P, Pw(d))
At(i, d, u) == LET D == RSub(T[i + 1], T[i]) IN
  Comb([j \in 1..k |-> Scaled(PEval(PDer(Basis(T, k, i)[j], d), u), d, D)], c, First(k, i))
\* a curve of order k has k - 1 - m continuous derivatives (k - m counting the value) at a knot of multiplicity m
Smooth == \A i, j \in Spans : (i < j /\ REq(T[i + 1], T[j])) =>
            \A d \in 0..k - 1 : d <= k - 1 - Mult(T[j]) => At(i, d, R(1)) = At(j, d, R(0))
\* the coefficients T[j+1..j+k-1] averaged reproduce t
Linear == k >= 2 => \A i \in Spans : \A u \in Us :
  LET g == [j \in 1..k |-> RDiv(RSum([a \in 1..k - 1 |-> T[i - k + j + a]]), R(k - 1))]
  IN REq(RSum([j \in 1..k |-> RMul(g[j], PEval(Basis(T, k, i)[j], u))]), RAdd(T[i], RMul(u, RSub(T[i + 1], T[i]))))
\* the derivative of a curve is the curve of the differences
Derivative == k >= 2 => \A i \in Spans : \A u \in Us :
  LET f == First(k, i)
      D == RSub(T[i + 1], T[i])
      q == [j \in 1..k - 1 |-> VScale(RDiv(R(k - 1), RSub(T[f + j + k - 1], T[f + j])), VSub(c[f + j], c[f + j - 1]))]
      P == Basis(T, k - 1, i)
  IN At(i, 1, u) = Comb([j \in 1..k - 1 |-> PEval(P[j], u)], q, 1)
\* the primitive has the curve as its derivative (by exact quadrature of the polynomial pieces) and starts at 0
Integral ==
  /\ \A r \in 1..2 : REq(Primitive(T, k, c, TMin(T, k))[r], R(0))
  /\ \A i \in Spans :
       LET D == RSub(T[i + 1], T[i])
           P == Basis(T, k, i)
           whole == VSub(Primitive(T, k, c, T[i + 1]), Primitive(T, k, c, T[i]))
       IN whole = VScale(D, Comb([j \in 1..k |-> PInt01(P[j])], c, First(k, i)))
\* the quadratic integral is symmetric, vanishes on what d derivatives annihilate and is the integral of the squared curve
Quadratic ==
  \A d \in 0..k - 1 :
    LET G == Gram(T, k, d) m == Len(T) - k IN
      /\ \A a, b \in 1..m : REq(G[a][b], G[b][a])
      /\ d > 0 => \A a \in 1..m : REq(RSum(G[a]), R(0))
      /\ RSign(RDot([a \in 1..m |-> c[a][1]], MV(G, [a \in 1..m |-> c[a][1]]))) >= 0
\* removing a segment keeps the rest, adding one keeps the joint and reaches the point
Kept ==
  /\ last = "remove" => \A i \in Spans : \A u \in Us :
       LET t == RAdd(T[i], RMul(u, RSub(T[i + 1], T[i]))) IN
       RLt(t, TMax(T, k)) => \A d \in 0..k - 1 : Value(T, k, c, t, d) = Value(was.T, k, was.c, t, d)
  /\ last = "add" =>
       LET t0 == TMax(was.T, k) IN
       /\ Value(T, k, c, t0, 0) = Value(was.T, k, was.c, t0, 0)
       /\ Value(T, k, c, TMax(T, k), 0) = <<R(2), R(-3)>>
       /\ \A j \in 1..Len(was.c) - 1 : c[j] = was.c[j]
       /\ SubSeq(T, 1, Len(was.T)) = was.T =>
            \A i \in {h \in Spans : h < Len(T) - k} : \A u \in Us :
               LET t == RAdd(T[i], RMul(u, RSub(T[i + 1], T[i]))) IN Value(T, k, c, t, 0) = Value(was.T, k, was.c, t, 0)
       /\ \A i \in {h \in Spans : h < Len(T) - 2 * k + 1} : LET t == Half(i) IN Value(T, k, c, t, 0) = Value(was.T, k, was.c, t, 0)
Count == Len(c) = Len(T) - k /\ Segments(T, k) >= 1
Laws == Count /\ UnitySum /\ NonNegative /\ Smooth /\ Linear /\ Derivative /\ Integral /\ Quadratic /\ Kept
=============================================================================
