------------------------------ MODULE JobQueueMC ------------------------------
(***************************************************************************)
(* The pool of workers, at the grain of its lock: every step between two   *)
(* operations on the lock or a condition is one action.  A client gives    *)
(* its jobs, waits for the queue to be empty or not, and ends the pool     *)
(* (stop and join, or just its destruction, possibly before the workers    *)
(* have come to life).  A second client may give jobs at the same time.    *)
(* UnderLock = FALSE is the pool as it was found: the order to stop is     *)
(* given without the lock, and the worker that has just looked for it goes *)
(* to sleep for good (checked to be rejected, see checks/C19.py).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS W, Jobs, UnderLock, CountEarly
Workers == 1..W
Client == 0
Other == 100
Procs == Workers \cup {Client, Other}
None == 999

VARIABLES
  pc,        \* where each process is
  owner,     \* who holds the lock
  queue,     \* jobs given and not taken
  kill,      \* the order to stop
  sleepers,  \* workers asleep on the queue's condition
  waiting,   \* clients asleep on the condition of finished work
  pool,      \* the workers counted as in the pool
  active,    \* the workers counted as working
  job,       \* what each worker took
  ran,       \* the jobs run, in the order they were begun
  done,      \* the jobs that ended
  todo, todo2, \* what each client has yet to give
  plan,      \* how the client will end: "join", "wait", "del"
  gone       \* the object is destroyed
vars == <<pc, owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>

Range(s) == {s[i] : i \in 1..Len(s)}
Perm == Range(queue)

Init ==
  /\ pc = [p \in Procs |-> IF p = Client THEN "give" ELSE IF p = Other THEN "give" ELSE "enter"]
  /\ owner = None
  /\ queue = <<>>
  /\ kill = FALSE
  /\ sleepers = {}
  /\ waiting = {}
  /\ pool = IF CountEarly THEN Workers ELSE {}
  /\ active = {}
  /\ job = [w \in Workers |-> None]
  /\ ran = <<>>
  /\ done = {}
  /\ todo = [i \in 1..Jobs |-> i]
  /\ todo2 = [i \in 1..(Jobs - 1) |-> 100 + i]
  /\ plan \in {"join", "wait", "del"}
  /\ gone = FALSE

To(p, s) == pc' = [pc EXCEPT ![p] = s]
Lock(p) == owner = None /\ owner' = p

(* ---- a worker *)
Enter(w) == pc[w] = "enter" /\ Lock(w) /\ pool' = pool \cup {w} /\ To(w, "look")
  /\ UNCHANGED <<queue, kill, sleepers, waiting, active, job, ran, done, todo, todo2, plan, gone>>
Look(w) == pc[w] = "look" /\ owner = w /\
  IF kill THEN
    /\ To(w, "leave")
    /\ UNCHANGED <<owner, queue, sleepers, waiting, pool, active, job, kill, ran, done, todo, todo2, plan, gone>>
  ELSE IF queue = <<>> THEN
    /\ To(w, "sleep")
    /\ UNCHANGED <<owner, queue, sleepers, waiting, pool, active, job, kill, ran, done, todo, todo2, plan, gone>>
  ELSE
    /\ job' = [job EXCEPT ![w] = Head(queue)]
    /\ queue' = Tail(queue)
    /\ active' = active \cup {w}
    /\ owner' = None
    /\ To(w, "begin")
    /\ UNCHANGED <<sleepers, waiting, pool, kill, ran, done, todo, todo2, plan, gone>>
Sleep(w) == pc[w] = "sleep" /\ owner = w /\ owner' = None /\ sleepers' = sleepers \cup {w} /\ To(w, "asleep")
  /\ UNCHANGED <<queue, kill, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Wake(w) == pc[w] = "asleep" /\ w \notin sleepers /\ Lock(w) /\ To(w, "look")
  /\ UNCHANGED <<queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Begin(w) == pc[w] = "begin" /\ ran' = Append(ran, job[w]) /\ To(w, "end")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, done, todo, todo2, plan, gone>>
Finish(w) == pc[w] = "end" /\ done' = done \cup {job[w]} /\ To(w, "back")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, todo, todo2, plan, gone>>
Back(w) == pc[w] = "back" /\ Lock(w) /\ active' = active \ {w} /\ waiting' = {} /\ job' = [job EXCEPT ![w] = None] /\ To(w, "look")
  /\ UNCHANGED <<queue, kill, sleepers, pool, ran, done, todo, todo2, plan, gone>>
Leave(w) == pc[w] = "leave" /\ owner = w /\ pool' = pool \ {w} /\ sleepers' = {}
  /\ owner' = None /\ To(w, "out")
  /\ UNCHANGED <<queue, kill, waiting, active, job, ran, done, todo, todo2, plan, gone>>

(* ---- a client *)
Give == pc[Client] = "give" /\ todo # <<>> /\ owner = None /\ queue' = Append(queue, Head(todo)) /\ todo' = Tail(todo) /\ sleepers' = {}
  /\ UNCHANGED <<pc, owner, kill, waiting, pool, active, job, ran, done, todo2, plan, gone>>
Give2 == pc[Other] = "give" /\ todo2 # <<>> /\ owner = None /\ queue' = Append(queue, Head(todo2)) /\ todo2' = Tail(todo2) /\ sleepers' = {}
  /\ UNCHANGED <<pc, owner, kill, waiting, pool, active, job, ran, done, todo, plan, gone>>
Given == pc[Client] = "give" /\ todo = <<>> /\ To(Client, IF plan = "wait" THEN "wait" ELSE IF plan = "join" THEN "stop" ELSE "reap2")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Wait == pc[Client] = "wait" /\ owner = None /\ (Client \notin waiting) /\
  IF active # {} \/ queue # <<>> THEN waiting' = waiting \cup {Client} /\ UNCHANGED <<pc, owner, queue, kill, sleepers, pool, active, job, ran, done, todo, todo2, plan, gone>>
  ELSE To(Client, "stop") /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Stop == pc[Client] = "stop" /\ (UnderLock => owner = None) /\ kill' = TRUE /\ To(Client, "tell")
  /\ UNCHANGED <<owner, queue, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Tell == pc[Client] = "tell" /\ sleepers' = {} /\ To(Client, "join")
  /\ UNCHANGED <<owner, queue, kill, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Join == pc[Client] = "join" /\ (\A w \in Workers : pc[w] = "out") /\ To(Client, "reap2")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Reap2 == pc[Client] = "reap2" /\ todo2 = <<>> /\ To(Client, "del")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Del == pc[Client] = "del" /\ owner = None /\ kill' = TRUE /\ sleepers' = {} /\ To(Client, "emptied")
  /\ UNCHANGED <<owner, queue, waiting, pool, active, job, ran, done, todo, todo2, plan, gone>>
Emptied == pc[Client] = "emptied" /\ owner = None /\ pool = {} /\ gone' = TRUE /\ To(Client, "end")
  /\ UNCHANGED <<owner, queue, kill, sleepers, waiting, pool, active, job, ran, done, todo, todo2, plan>>

Work(w) == Enter(w) \/ Look(w) \/ Sleep(w) \/ Wake(w) \/ Begin(w) \/ Finish(w) \/ Back(w) \/ Leave(w)
Main == Give \/ Given \/ Wait \/ Stop \/ Tell \/ Join \/ Reap2 \/ Del \/ Emptied
Next == (\E w \in Workers : Work(w)) \/ Main \/ Give2
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : SF_vars(Work(w))) /\ SF_vars(Main) /\ WF_vars(Give2)

(* ---- what it is for *)
AtMostOnce == Cardinality(Range(ran)) = Len(ran)
OnlyGiven == \A i \in 1..Len(ran) : ran[i] \notin Range(todo) \cup Range(todo2) \cup Range(queue)
Accounted == gone \/ \A j \in (1..Jobs) : j \in Range(todo) \cup Range(queue) \cup Range(ran) \cup {job[w] : w \in Workers}
InOrder == \A a \in 1..Len(ran) : ran[a] < 100 =>
  Cardinality({j \in 1..(ran[a] - 1) : \A b \in 1..a : ran[b] # j}) < W
WaitedFor == (plan = "wait" /\ pc[Client] \in {"stop", "tell", "join", "reap2", "del", "emptied", "end"}) => 1..Jobs \subseteq done
Joined == (plan \in {"join", "wait"} /\ pc[Client] \in {"reap2", "del", "emptied", "end"}) => \A w \in Workers : pc[w] = "out"
NoneAfterTheEnd == gone => \A w \in Workers : pc[w] = "out"
Ends == <>(pc[Client] = "end")
=============================================================================
