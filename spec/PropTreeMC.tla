---------------------------- MODULE PropTreeMC ----------------------------
(***************************************************************************)
(* Every history of sets, child nodes, saves and loads on a small tree.    *)
(* last is a ghost: for every path the last value set there since the      *)
(* contents were last replaced.                                            *)
(***************************************************************************)
EXTENDS PropTree, FiniteSets, TLC

CONSTANTS Depth, MaxLen, Kinds
a == <<97>>
b == <<98>>
Nodes == {<< >>, <<a>>, <<b, a>>}
Keys == {<<97>>, <<47, 97>>, <<97, 47, 98>>, <<47, 98, 47, 97>>, <<98>>}
Values == {[k |-> k, x |-> <<1>>] : k \in Kinds}

VARIABLES T, last, file, flast, n
vars == <<T, last, file, flast, n>>
Init == T = << >> /\ last = << >> /\ file = << >> /\ flast = << >> /\ n = 0
With(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Set(node, k, v) == LET p == PathOf(node, k) IN
  /\ Len(p) <= MaxLen
  /\ T' = Put(T, p, v) /\ last' = With(last, p, v) /\ UNCHANGED <<file, flast>>
\* reading with a default from a writable node sets what was not set
GetDefault(node, k, v) == LET p == PathOf(node, k) IN
  /\ Len(p) <= MaxLen
  /\ IF p \in DOMAIN T /\ (T[p] # Empty \/ v.k = "s") THEN UNCHANGED <<T, last>> ELSE T' = Put(T, p, v) /\ last' = With(last, p, v)
  /\ UNCHANGED <<file, flast>>
Save == file' = T /\ flast' = last /\ UNCHANGED <<T, last>>
SaveIni == IniFits(T) /\ Save
Load == T' = file /\ last' = flast /\ UNCHANGED <<file, flast>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E nd \in Nodes, k \in Keys, v \in Values : Set(nd, k, v) \/ GetDefault(nd, k, v)
           \/ Save \/ SaveIni \/ Load
Spec == Init /\ [][Next]_vars

\* what was set last is what is read, from whichever node and by whichever key
ReadsBack == \A p \in DOMAIN last : T[p] = last[p]
Nothing == \A p \in DOMAIN T \ DOMAIN last : T[p] = Empty /\ HasChildren(T, p)
Closed == \A p \in DOMAIN T : Prefixes(p) \subseteq DOMAIN T
SamePath == \A nd \in Nodes, k \in Keys :
  /\ PathOf(<< >>, k) = PathOf(nd, k) \/ ~Absolute(k)
  /\ ~Absolute(k) => PathOf(ChildOf(<< >>, <<97>>), k) = PathOf(<< >>, <<97, 47>> \o k)
  /\ ~Absolute(k) => PathOf(nd, k) = nd \o PathOf(<< >>, k)
Inv == ReadsBack /\ Nothing /\ Closed
ASSUME SamePath
Others == [][\A p \in DOMAIN last : p \in DOMAIN last' => (last'[p] = last[p] \/ T' = file \/ \E nd \in Nodes, k \in Keys : PathOf(nd, k) = p)]_vars
===========================================================================
