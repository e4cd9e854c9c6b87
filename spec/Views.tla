-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* The table of views: observations that belong to one instant.  A view    *)
(* has the time of the observation that opened it and one observation of   *)
(* each camera at most.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(V, t) == {i \in 1..Len(V) : \A j \in 1..Len(V) : Abs(V[i].t - t) <= Abs(V[j].t - t)}
Fun(k, v, f) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* what may become of the table when observation o = [n, corners] of camera c at time t is added *)
Added(V, tol, c, t, o) ==
  LET near == {i \in Near(V, t) : Abs(V[i].t - t) <= tol} IN
  IF near = {} THEN {[views |-> Append(V, [t |-> t, by |-> Fun(c, o, << >>)]), err |-> FALSE]}
  ELSE {IF c \in DOMAIN V[i].by THEN [views |-> V, err |-> TRUE]
        ELSE [views |-> [V EXCEPT ![i].by = Fun(c, o, V[i].by)], err |-> FALSE] : i \in near}

(* the graph of the cameras: pairs that see a corner in common at one instant *)
Common(v, a, b) == IF a \in DOMAIN v.by /\ b \in DOMAIN v.by THEN v.by[a].corners \cap v.by[b].corners ELSE {}
RECURSIVE Sum(_, _, _, _)
Sum(V, a, b, i) == IF i = 0 THEN 0 ELSE Cardinality(Common(V[i], a, b)) + Sum(V, a, b, i - 1)
Weight(V, a, b) == Sum(V, a, b, Len(V))
RECURSIVE Reach(_, _, _)
Reach(V, S, n) == LET T == S \cup {b \in 0..(n - 1) : \E a \in S : Weight(V, a, b) > 0} IN IF T = S THEN S ELSE Reach(V, T, n)
Connected(V, n) == Reach(V, {0}, n) = 0..(n - 1)
=============================================================================
