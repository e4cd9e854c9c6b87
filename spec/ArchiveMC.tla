----------------------------- MODULE ArchiveMC -----------------------------
(***************************************************************************)
(* Every history of edits, saves, appends, truncations and loads of a small *)
(* store.  A file is read block by block, so a crash of the reader at any  *)
(* block and a file cut at any byte are both covered.                      *)
(***************************************************************************)
EXTENDS Archive, FiniteSets, TLC

CONSTANTS NameSet, Vals, Depth
VARIABLES E, F, bad, n, ghost, lastOp
vars == <<E, F, bad, n, ghost, lastOp>>
\* E: the store; F: the blocks of the file; bad: the file ends inside a block
\* ghost: name -> what was last set under it and neither cleared nor replaced
Bytes(b) == b.v + 1
Init == E = << >> /\ F = << >> /\ bad = FALSE /\ n = 0 /\ ghost = << >> /\ lastOp = "init"
RECURSIVE Write(_, _)
Write(X, N) == LET D == {m \in DOMAIN X : Chosen(m, N)} IN
               IF D = {} THEN << >> ELSE LET m == CHOOSE k \in D : TRUE IN <<[n |-> m, v |-> X[m]]>> \o Write(DropE(X, m), N)
Edit == \/ \E m \in NameSet, v \in Vals : E' = SetE(E, m, v) /\ ghost' = SetE(ghost, m, v)
        \/ \E m \in NameSet : E' = DropE(E, m) /\ ghost' = DropE(ghost, m)
Save(N) == F' = Write(E, N) /\ bad' = FALSE /\ lastOp' = "save"
Append1(N) == ~bad /\ F' = F \o Write(E, N) /\ UNCHANGED bad /\ lastOp' = "append"
CutAt(c) == LET w == Whole(F, c, Bytes) IN F' = w.blocks /\ bad' = ~w.clean /\ lastOp' = "cut"
Load(N) == \/ E' = Reading(E, F, N) /\ ghost' = [m \in DOMAIN E' |-> E'[m]] /\ lastOp' = (IF bad THEN "refused" ELSE "load")
           \* a damaged block stops the reading somewhere
           \/ bad /\ \E k \in 0..Len(F) : E' = Reading(E, SubSeq(F, 1, k), N) /\ ghost' = [m \in DOMAIN E' |-> E'[m]] /\ lastOp' = "refused"
RECURSIVE Total(_)
Total(B) == IF B = << >> THEN 0 ELSE Bytes(B[1]) + Total(Tail(B))
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ Edit /\ lastOp' = "edit" /\ UNCHANGED <<F, bad>>
           \/ \E N \in SUBSET NameSet : (Save(N) \/ Append1(N)) /\ UNCHANGED <<E, ghost>>
           \/ ~bad /\ \E c \in 0..(Total(F) - 1) : CutAt(c) /\ UNCHANGED <<E, ghost>>
           \/ \E N \in SUBSET NameSet : Load(N) /\ UNCHANGED <<F, bad>>
Spec == Init /\ [][Next]_vars

Kept == E = ghost
RoundTrip == \A N \in SUBSET NameSet :
  LET X == Reading(<< >>, Write(E, N), N) IN X = [m \in {k \in DOMAIN E : Chosen(k, N)} |-> E[m]]
WritesOnce == \A N \in SUBSET NameSet : IsWriting(Write(E, N), E, N)
\* reading any whole prefix leaves whole entries
Prefixes == \A k \in 0..Len(F) : \A N \in SUBSET NameSet : Between(Reading(E, SubSeq(F, 1, k), N), E, F, N)
CutProperty == \A c \in 0..Total(F) : LET w == Whole(F, c, Bytes) IN
  /\ w.blocks = SubSeq(F, 1, Len(w.blocks))
  /\ w.clean <=> Total(w.blocks) = c
Inv == Kept /\ RoundTrip /\ WritesOnce /\ Prefixes /\ CutProperty
===========================================================================
