----------------------------- MODULE MarginalMC -----------------------------
(***************************************************************************)
(* Every small integer Jacobian and error: the prior on the remaining      *)
(* variables loses nothing.                                                *)
(***************************************************************************)
EXTENDS Marginal, FiniteSets
CONSTANTS NRows, Entries, Errors
VARIABLES J, e
vars == <<J, e>>
Small == {-1, 0, 2}
Larger == {-1, 0, 1, 2}
RJ == [i \in 1..NRows |-> [j \in 1..3 |-> R(J[i][j])]]
Re == [i \in 1..NRows |-> R(e[i])]
H == MM(MT(RJ), RJ)
g == VNeg(MTV(RJ, Re))
Init == J = <<>> /\ e = <<>>
Next == /\ Len(J) < NRows
        /\ \E a, b, c \in Entries, d \in Errors : J' = Append(J, <<a, b, c>>) /\ e' = Append(e, d)
Full == Len(J) = NRows
Regular(A) == ~NearlySingular(A, 40)
Cost(x) == VSq(VAdd(MV(RJ, x), Re))
Points == {<<R(a), R(b)>> : a, b \in {-1, 0, 2}}
B == 120
\* the best removed variable for given remaining ones
Best(y) == RDiv(RSub(g[1], RAdd(RMul(H[1][2], y[1]), RMul(H[1][3], y[2]))), H[1][1])
LosesNothing ==
  (Full /\ RSign(H[1][1]) > 0) =>
    LET s == Elim(H, g, 1, B)
        c0 == Cost(<<Best(<<R(0), R(0)>>), R(0), R(0)>>)
    IN  \A y \in Points : Near(RSub(Cost(<<Best(y), y[1], y[2]>>), c0), Quad(s.H, s.g, y), R(1), 80)
OrderDoesNotMatter ==
  (Full /\ Regular([i \in 1..2 |-> [j \in 1..2 |-> H[i][j]]])) =>
    LET a == Elim(H, g, 2, B)
        P(m) == <<<<m[2][2], m[2][1], m[2][3]>>, <<m[1][2], m[1][1], m[1][3]>>, <<m[3][2], m[3][1], m[3][3]>>>>
        b == Elim(P(H), <<g[2], g[1], g[3]>>, 2, B)
    IN  Near(a.H[1][1], b.H[1][1], R(1), 80) /\ Near(a.g[1], b.g[1], R(1), 80)
SameSolution ==
  (Full /\ Regular(H)) =>
    LET x == SolveSpd(H, g, B)
        s == Elim(H, g, 1, B)
        y == SolveSpd(s.H, s.g, B)
    IN  /\ VNear(MV(H, x), g, R(1), 60)
        /\ \A i \in 1..2 : Near(y[i], x[i + 1], R(1), 60)
=============================================================================
