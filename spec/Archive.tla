------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* A store of named entries and the files it is written to.  A store is a  *)
(* function from names to entries; a file is a sequence of blocks, one     *)
(* entry each, read from the front.  A later block of a name counts.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

SetE(E, n, v) == [m \in DOMAIN E \cup {n} |-> IF m = n THEN v ELSE E[m]]
DropE(E, n) == [m \in DOMAIN E \ {n} |-> E[m]]
\* what reading the blocks B into E gives, of the names chosen (all if none are)
Chosen(n, N) == N = {} \/ n \in N
RECURSIVE Reading(_, _, _)
Reading(E, B, N) == IF B = << >> THEN E
                    ELSE Reading(IF Chosen(B[1].n, N) THEN SetE(E, B[1].n, B[1].v) ELSE E, Tail(B), N)
\* a writing of the chosen entries of E: each once
IsWriting(B, E, N) ==
  /\ {B[i].n : i \in 1..Len(B)} = {n \in DOMAIN E : Chosen(n, N)}
  /\ \A i, j \in 1..Len(B) : B[i].n = B[j].n => i = j
  /\ \A i \in 1..Len(B) : B[i].v = E[B[i].n]
\* what may be left when a reading was refused on the way: whole entries, old or new
Between(X, E, B, N) ==
  /\ DOMAIN E \subseteq DOMAIN X
  /\ \A n \in DOMAIN X : (n \in DOMAIN E /\ X[n] = E[n]) \/ \E i \in 1..Len(B) : B[i].n = n /\ Chosen(n, N) /\ X[n] = B[i].v
\* the whole blocks before byte c; Bytes(b) is the length of a block
Whole(B, c, Bytes(_)) ==
  LET RECURSIVE W(_, _)
      W(D, d) == IF D = << >> THEN [blocks |-> << >>, clean |-> d = 0]
                 ELSE IF d < Bytes(D[1]) THEN [blocks |-> << >>, clean |-> d = 0]
                 ELSE LET w == W(Tail(D), d - Bytes(D[1])) IN [blocks |-> <<D[1]>> \o w.blocks, clean |-> w.clean]
  IN W(B, c)
===========================================================================
