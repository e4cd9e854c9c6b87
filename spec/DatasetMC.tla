------------------------------ MODULE DatasetMC ------------------------------
(***************************************************************************)
(* Readers: messages in any order are sorted by their own time, then those *)
(* outside the range are left out; what is kept is named by its place in   *)
(* the recording.  Extraction: workers take images from one queue and put  *)
(* what they found in another; a worker may fail and takes its image with  *)
(* it.  Report = FALSE is the extraction as it was found: a failure goes   *)
(* unseen (checked to be rejected).                                        *)
(***************************************************************************)
EXTENDS Dataset, TLC
CONSTANTS N, T, W, Report
VARIABLES ms, lo, hi, tasks, held, results, exits, answer
vars == <<ms, lo, hi, tasks, held, results, exits, answer>>

\* insertion sort by (time, place), as the readers do with (time, index) pairs
RECURSIVE Sorted(_, _)
Sorted(m, S) == IF S = {} THEN <<>> ELSE
  LET i == CHOOSE a \in S : \A b \in S : m[a].t < m[b].t \/ (m[a].t = m[b].t /\ a <= b) IN <<i>> \o Sorted(m, S \ {i})
Read(m) == SelectSeq(Sorted(m, 1..Len(m)), LAMBDA i : m[i].t >= First(m) + lo /\ m[i].t <= First(m) + hi)

Found == {i \in 1..Len(ms) : ms[i].t # 1}    \* images at time 1 do not show the target
Fails == {i \in 1..Len(ms) : ms[i].t = T}    \* the detector fails on images at time T

Init ==
  /\ ms \in UNION {[1..n -> [t : 0..T]] : n \in 1..N}
  /\ lo \in 0..1
  /\ hi \in {1, T}
  /\ tasks = [i \in 1..Len(ms) |-> i]
  /\ held = [w \in 1..W |-> 0]
  /\ results = {}
  /\ exits = [w \in 1..W |-> "runs"]
  /\ answer = "none"
Take(w) == exits[w] = "runs" /\ held[w] = 0 /\
  IF tasks = <<>> THEN exits' = [exits EXCEPT ![w] = "done"] /\ UNCHANGED <<ms, lo, hi, tasks, held, results, answer>>
  ELSE held' = [held EXCEPT ![w] = Head(tasks)] /\ tasks' = Tail(tasks) /\ UNCHANGED <<ms, lo, hi, results, exits, answer>>
Work(w) == held[w] # 0 /\ held' = [held EXCEPT ![w] = 0] /\
  IF held[w] \in Fails THEN exits' = [exits EXCEPT ![w] = "failed"] /\ UNCHANGED <<ms, lo, hi, tasks, results, answer>>
  ELSE results' = (IF held[w] \in Found THEN results \cup {held[w]} ELSE results) /\ UNCHANGED <<ms, lo, hi, tasks, exits, answer>>
Gather == answer = "none" /\ (\A w \in 1..W : exits[w] # "runs") /\ answer' = (IF Report /\ \E w \in 1..W : exits[w] = "failed" THEN "error" ELSE "ok")
  /\ UNCHANGED <<ms, lo, hi, tasks, held, results, exits>>
Next == (\E w \in 1..W : Take(w) \/ Work(w)) \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ReadOrdered == Ordered([i \in 1..Len(Read(ms)) |-> ms[Read(ms)[i]]])
ReadWanted == {Read(ms)[i] : i \in 1..Len(Read(ms))} = Wanted(ms, TRUE, lo, hi) /\ Len(Read(ms)) = Cardinality(Wanted(ms, TRUE, lo, hi))
NothingLost == answer = "ok" => results = Found
FailureSeen == answer = "error" => Fails # {}
SerialToo == (answer # "none" /\ Fails = {}) => answer = "ok"
Ends == <>(answer # "none")
=============================================================================
