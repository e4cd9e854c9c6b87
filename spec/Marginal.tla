------------------------------- MODULE Marginal -------------------------------
(***************************************************************************)
(* Elimination of variables from a quadratic cost  x'Hx - 2 g'x  (H the    *)
(* Gauss-Newton Hessian, g = -J'e): minimising over the first variable     *)
(* leaves the Schur complement on the others.                              *)
(***************************************************************************)
EXTENDS LinAlg

\* one scalar variable, the first
Elim1(H, g, b) ==
  LET n == Len(H)
      p == H[1][1]
  IN  [H |-> Force([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
              RRnd(RSub(H[i + 1][j + 1], RDiv(RMul(H[i + 1][1], H[1][j + 1]), p)), b)]]),
       g |-> Force([i \in 1..(n - 1) |-> RRnd(RSub(g[i + 1], RDiv(RMul(H[i + 1][1], g[1]), p)), b)])]
RECURSIVE Elim(_, _, _, _)
Elim(H, g, k, b) == IF k = 0 THEN [H |-> H, g |-> g]
                    ELSE LET s == Elim1(H, g, b) IN Elim(s.H, s.g, k - 1, b)
\* solution of H x = g for positive definite H
RECURSIVE SolveSpd(_, _, _)
SolveSpd(H, g, b) ==
  IF Len(g) = 0 THEN <<>>
  ELSE LET s == Elim1(H, g, b)
           y == SolveSpd(s.H, s.g, b)
           x == RDiv(RSub(g[1], RSum([j \in 1..Len(y) |-> RMul(H[1][j + 1], y[j])])), H[1][1])
       IN  Force(<<RRnd(x, b)>> \o y)
InvSpd(H, b) == LET n == Len(H) IN MT([j \in 1..n |-> SolveSpd(H, [i \in 1..n |-> IF i = j THEN R(1) ELSE R(0)], b)])
Quad(H, g, x) == RSub(RDot(x, MV(H, x)), RMul(R(2), RDot(g, x)))
=============================================================================
