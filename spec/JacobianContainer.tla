-------------------------- MODULE JacobianContainer --------------------------
(***************************************************************************)
(* A Jacobian container: per design variable the sum of all contributions, *)
(* each multiplied by the chain-rule factors applied after it came in.     *)
(* The containers keep their entries sorted by block index, and one is     *)
(* merged into another by walking both lists; the ghost variable hist      *)
(* remembers every contribution with its factors, and says what the        *)
(* entries must be.  Scalars stand for matrices here.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vars, Vals, Facs, MaxOps
Cs == {"a", "b"}
VARIABLES J,     \* J[c]: sequence of <<variable, value>>, sorted by variable (its block index)
          hist,  \* hist[c]: bag of <<variable, value * factors>> as a sequence
          act, ops
vars == <<J, hist, act, ops>>

Has(s, v) == \E i \in 1..Len(s) : s[i][1] = v
RECURSIVE Insert(_, _)
Insert(s, p) == IF s = <<>> THEN <<p>>
                ELSE IF Head(s)[1] < p[1] THEN <<Head(s)>> \o Insert(Tail(s), p)
                ELSE <<p>> \o s
AddTo(s, v, x) == IF Has(s, v) THEN [i \in 1..Len(s) |-> IF s[i][1] = v THEN <<v, s[i][2] + x>> ELSE s[i]] ELSE Insert(s, <<v, x>>)
\* the walk over both lists: a < b -> take a; equal -> add; b < a -> take b
RECURSIVE Merge(_, _)
Merge(s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
               ELSE IF Head(s)[1] < Head(t)[1] THEN <<Head(s)>> \o Merge(Tail(s), t)
               ELSE IF Head(t)[1] < Head(s)[1] THEN <<Head(t)>> \o Merge(s, Tail(t))
               ELSE <<<<Head(s)[1], Head(s)[2] + Head(t)[2]>>>> \o Merge(Tail(s), Tail(t))
Scale(s, f) == [i \in 1..Len(s) |-> <<s[i][1], f * s[i][2]>>]

Init == J = [c \in Cs |-> <<>>] /\ hist = [c \in Cs |-> <<>>] /\ act \in [Vars -> BOOLEAN] /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
Add(c, v, x) == /\ Tick
                /\ IF act[v] THEN J' = [J EXCEPT ![c] = AddTo(@, v, x)] /\ hist' = [hist EXCEPT ![c] = Append(@, <<v, x>>)]
                   ELSE UNCHANGED <<J, hist>>
                /\ UNCHANGED act
MergeInto(c, d) == Tick /\ c # d /\ J' = [J EXCEPT ![c] = Merge(@, J[d])] /\ hist' = [hist EXCEPT ![c] = @ \o hist[d]] /\ UNCHANGED act
Chain(c, f) == Tick /\ J' = [J EXCEPT ![c] = Scale(@, f)] /\ hist' = [hist EXCEPT ![c] = Scale(@, f)] /\ UNCHANGED act
Clear(c) == Tick /\ J[c] # <<>> /\ J' = [J EXCEPT ![c] = <<>>] /\ hist' = [hist EXCEPT ![c] = <<>>] /\ UNCHANGED act
Activate(v) == Tick /\ act' = [act EXCEPT ![v] = ~@] /\ UNCHANGED <<J, hist>>
Next == \/ \E c \in Cs : \/ \E v \in Vars : \E x \in Vals : Add(c, v, x)
                         \/ \E d \in Cs : MergeInto(c, d)
                         \/ \E f \in Facs : Chain(c, f)
                         \/ Clear(c)
        \/ \E v \in Vars : Activate(v)
Spec == Init /\ [][Next]_vars

RECURSIVE Contributions(_, _)
Contributions(s, v) == IF s = <<>> THEN 0 ELSE (IF Head(s)[1] = v THEN Head(s)[2] ELSE 0) + Contributions(Tail(s), v)
Exact == \A c \in Cs : \A v \in Vars :
           /\ Has(J[c], v) <=> \E i \in 1..Len(hist[c]) : hist[c][i][1] = v
           /\ \A i \in 1..Len(J[c]) : J[c][i][1] = v => J[c][i][2] = Contributions(hist[c], v)
Sorted == \A c \in Cs : \A i \in 1..(Len(J[c]) - 1) : J[c][i][1] < J[c][i + 1][1]
=============================================================================
