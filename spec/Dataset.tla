------------------------------- MODULE Dataset -------------------------------
(* What reading a topic of a recording means. *)
EXTENDS Integers, Sequences, FiniteSets
Times(ms) == {ms[i].t : i \in 1..Len(ms)}
First(ms) == CHOOSE t \in Times(ms) : \A u \in Times(ms) : t <= u
\* the messages inside the range, by their place in the recording
Wanted(ms, ranged, lo, hi) == {i \in 1..Len(ms) : ranged => (ms[i].t >= First(ms) + lo /\ ms[i].t <= First(ms) + hi)}
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i].t <= s[i + 1].t
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameItems(s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(r, s[i])
=============================================================================
