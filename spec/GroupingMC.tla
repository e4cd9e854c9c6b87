----------------------------- MODULE GroupingMC -----------------------------
(***************************************************************************)
(* The union-find forest with path compression and union by size, over     *)
(* every history of joins and look-ups on N nodes, against the partition   *)
(* the joins generate; and the cell table of the neighbour search.         *)
(***************************************************************************)
EXTENDS Tags
CONSTANTS N, Depth

VARIABLES parent, size, part, d
vars == <<parent, size, part, d>>
Nodes == 0..(N - 1)

RECURSIVE Root(_, _)
Root(p, a) == IF p[a] = a THEN a ELSE Root(p, p[a])
RECURSIVE OnPath(_, _)
OnPath(p, a) == IF p[a] = a THEN {a} ELSE {a} \cup OnPath(p, p[a])
Compressed(p, a) == [i \in Nodes |-> IF i \in OnPath(p, a) THEN Root(p, a) ELSE p[i]]

Init == parent = [i \in Nodes |-> i] /\ size = [i \in Nodes |-> 1] /\ part = Classes(N) /\ d = 0
Look == \E a \in Nodes : parent' = Compressed(parent, a) /\ UNCHANGED <<size, part>>
Connect ==
  \E a, b \in Nodes :
    LET p == Compressed(Compressed(parent, a), b)
        ra == Root(p, a)   rb == Root(p, b) IN
    /\ part' = Join(part, a, b)
    /\ IF ra = rb THEN parent' = p /\ UNCHANGED size
       ELSE IF size[ra] > size[rb]
       THEN parent' = [p EXCEPT ![rb] = ra] /\ size' = [size EXCEPT ![ra] = @ + size[rb]]
       ELSE parent' = [p EXCEPT ![ra] = rb] /\ size' = [size EXCEPT ![rb] = @ + size[ra]]
Next == d < Depth /\ d' = d + 1 /\ (Look \/ Connect)
Spec == Init /\ [][Next]_vars

Partition == \A a, b \in Nodes : (b \in part[a]) = (Root(parent, a) = Root(parent, b))
Sizes == \A a \in Nodes : size[Root(parent, a)] = Cardinality(part[a])
Member == \A a \in Nodes : Root(parent, a) \in part[a]
\* depth of the forest is logarithmic
Shallow == \A a \in Nodes : 2 ^ (Cardinality(OnPath(parent, a)) - 1) <= Cardinality(part[a])

\* the cells visited for a range hold every point within it (unit cells of width C over 0..W)
Trunc(x, c) == IF x >= 0 THEN x \div c ELSE -((-x) \div c)
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i > n - 1 THEN n - 1 ELSE i
ASSUME \A W \in 1..12, C \in 1..5, x \in -3..15, r \in 0..6 :
         LET n == W \div C + 1 IN
         \A q \in 0..W : (q - x <= r /\ x - q <= r) =>
           Clamp(Trunc(x - r, C), n) <= Trunc(q, C) /\ Trunc(q, C) <= Clamp(Trunc(x + r, C), n)
=============================================================================
