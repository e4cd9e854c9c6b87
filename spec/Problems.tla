------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* Optimization problems as collections.                                   *)
(*                                                                         *)
(* A grouped problem (calibration) is [order, groups, ets]: the order of   *)
(* its groups, for each group the sequence of its design variables, and    *)
(* the sequence of its error terms.  An incremental problem is             *)
(* [order, groups, probs]: its design variables are those of the           *)
(* sub-problems merged into it, each once, in order of first appearance,   *)
(* as long as one merged sub-problem has it.  Error terms are those of the *)
(* sub-problems.  All operators are total; a refused operation is one      *)
(* whose guard is FALSE.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
NoDup(s) == Cardinality(Rng(s)) = Len(s)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Cat(_, _)
Cat(f, o) == IF o = <<>> THEN <<>> ELSE f[Head(o)] \o Cat(f, Tail(o))

\* permutations are given by 0-based indices: the new element i is the old element p[i]
IsPerm(p, n) == Len(p) = n /\ Rng(p) = 0..(n - 1)
Permuted(s, p) == [i \in DOMAIN p |-> s[p[i] + 1]]

NoGroups == [order |-> <<>>, groups |-> <<>>]
Members(c) == UNION {Rng(c.groups[g]) : g \in DOMAIN c.groups}
Listing(c) == Cat(c.groups, c.order)
GroupOf(c, d) == CHOOSE g \in DOMAIN c.groups : d \in Rng(c.groups[g])
Grown(c, d, g) ==
  IF g \in DOMAIN c.groups THEN [c EXCEPT !.groups = [@ EXCEPT ![g] = Append(@, d)]]
  ELSE [c EXCEPT !.order = Append(@, g), !.groups = (g :> <<d>>) @@ @]
Shrunk(c, S) ==
  LET left(g) == SelectSeq(c.groups[g], LAMBDA d : d \notin S)
      stay == {g \in DOMAIN c.groups : left(g) # <<>>}
  IN  [c EXCEPT !.order = SelectSeq(@, LAMBDA g : g \in stay), !.groups = [g \in stay |-> left(g)]]
OrderOk(c, o) == Len(o) = Len(c.order) /\ Rng(o) = DOMAIN c.groups /\ NoDup(o)
PermDOk(c, g, p) == g \in DOMAIN c.groups /\ IsPerm(p, Len(c.groups[g]))
PermD(c, g, p) == [c EXCEPT !.groups = [@ EXCEPT ![g] = Permuted(@, p)]]

\* the incremental problem; sub is the function from names to sub-problems
RECURSIVE GrownAll(_, _, _)
GrownAll(i, c, ds) == IF ds = <<>> THEN i
                      ELSE GrownAll(IF Head(ds) \in Members(i) THEN i ELSE Grown(i, Head(ds), GroupOf(c, Head(ds))), c, Tail(ds))
MergeOk(i, sub, n) ==
  /\ \A d \in Members(i) \cap Members(sub[n]) : GroupOf(i, d) = GroupOf(sub[n], d)
  /\ \A k \in DOMAIN i.probs : Rng(sub[i.probs[k]].ets) \cap Rng(sub[n].ets) = {}
Merge(i, sub, n) == [GrownAll(i, sub[n], Listing(sub[n])) EXCEPT !.probs = Append(@, n)]
Unmerge(i, sub, k) ==
  LET rest == RemoveAt(i.probs, k)
      used == UNION {Members(sub[rest[j]]) : j \in DOMAIN rest}
  IN  [Shrunk(i, Members(i) \ used) EXCEPT !.probs = rest]
=============================================================================
