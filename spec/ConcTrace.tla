------------------------------- MODULE ConcTrace -------------------------------
(***************************************************************************)
(* Runs of the concurrent helpers under a scheduler that decides at every  *)
(* lock, condition and thread operation who goes on.  A run is the history *)
(* of calls and returns of every client, and of the work the helpers did.  *)
(* Only what every fair schedule must show is demanded; what a thread may  *)
(* see in between is left open.                                            *)
(***************************************************************************)
EXTENDS Trc, Integers, FiniteSets
VARIABLE s
vars == <<l, s>>

Empty == [
  n |-> 0,                 \* events so far
  on |-> FALSE,            \* a run has begun and not ended
  W |-> 0,                 \* workers of the queue
  stopped |-> FALSE, over |-> FALSE, allow |-> 0,
  called |-> << >>,        \* job -> when it was being given
  given |-> << >>,         \* job -> when it was given
  begun |-> << >>, ended |-> << >>,
  child |-> << >>,         \* job -> the job it was given by
  throws |-> {},
  cur |-> << >>,           \* thread -> the job it runs
  at |-> << >>,            \* client -> when its call began
  before |-> << >>,        \* client -> what it knew then
  rec |-> << >>,           \* mutex -> it may be locked again by its owner
  held |-> << >>,          \* mutex -> <<client, count>> for the one who has it for certain
  may |-> << >>,           \* mutex -> clients that may have it
  seen |-> << >>,          \* client -> clients that may have had it during the call
  freed |-> << >>,         \* client -> the one who had it let go during the call
  signals |-> << >>,       \* condition -> when it was last signalled
  busy |-> {}, passes |-> 0, started |-> FALSE, asked |-> FALSE, resting |-> TRUE, cycle |-> 0]

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Init == l = 1 /\ s = Empty

Begin == Is("begin") /\ s' = Empty /\ Step
Run == Is("run") /\ s' = [Empty EXCEPT !.on = TRUE] /\ Step

Running == DOMAIN s.begun \ DOMAIN s.ended
Unbegun == DOMAIN s.given \ DOMAIN s.begun

(* ---- jobs *)
JobBegins == Is("jb") /\
  LET j == Line.j
      earlier == {i \in Unbegun : s.given[i] < s.called[j]}
  IN /\ Chk("a job is run that was never given", j \in DOMAIN s.called)
     /\ Chk("a job is run twice", j \notin DOMAIN s.begun)
     /\ Chk("a job is run after the queue has ended", ~s.over)
     /\ Chk("a thread begins a job in the middle of another", Line.t \notin DOMAIN s.cur)
     /\ Chk("more jobs at a time than workers", Cardinality(Running) < s.W)
     /\ Chk("jobs given earlier are passed over", Cardinality(earlier \ {j}) + Cardinality(Running) + 1 <= s.W)
     /\ Chk("jobs are begun after the queue was stopped", s.stopped => s.allow > 0)
     /\ s' = [s EXCEPT !.n = s.n + 1, !.begun = Put(s.begun, j, s.n), !.cur = Put(s.cur, Line.t, j), !.allow = IF s.stopped THEN s.allow - 1 ELSE s.allow]
     /\ Step
JobEnds == Is("je") /\
  /\ Chk("a job ends that does not run", Get(s.cur, Line.t, -1) = Line.j)
  /\ s' = [s EXCEPT !.n = s.n + 1, !.ended = Put(s.ended, Line.j, s.n), !.cur = [x \in DOMAIN s.cur \ {Line.t} |-> s.cur[x]]]
  /\ Step

(* ---- what a thread object runs *)
PassBegins == Is("pb") /\
  /\ Chk("a thread's work begins twice at a time", s.busy = {})
  /\ Chk("work begins in a thread that was not started or has ended", ~s.resting)
  /\ Chk("a thread that works once works again", s.cycle < 0 => s.passes = 0)
  /\ s' = [s EXCEPT !.n = s.n + 1, !.busy = {Line.t}, !.passes = s.passes + 1]
  /\ Step
PassEnds == Is("pe") /\
  /\ Chk("work ends that did not begin", s.busy = {Line.t})
  /\ s' = [s EXCEPT !.n = s.n + 1, !.busy = {}]
  /\ Step

(* ---- calls *)
K == Line.k
F == Line.f
Jb == Line.j
Mm == Line.m
Holder(m) == Get(s.held, m, <<-1, 0>>)
Gained(m, k) ==   \* k may have m from now on: whoever waits for it may have met that
  [s EXCEPT !.n = s.n + 1, !.at = Put(s.at, k, s.n), !.may = Put(s.may, m, Get(s.may, m, {}) \cup {k}),
            !.seen = Put([c \in DOMAIN s.seen |-> s.seen[c] \cup {k}], k, Get(s.may, m, {}) \ {k})]
Lost(t, m, k) ==  \* k lets go: whoever watched it saw that
  [t EXCEPT !.held = Put(t.held, m, <<-1, 0>>), !.freed = [c \in DOMAIN t.freed |-> TRUE]]

Call == Is("call") /\
  LET t == [s EXCEPT !.n = s.n + 1, !.at = Put(s.at, K, s.n)] IN
  /\ s' =
    CASE F = "start" -> [t EXCEPT !.W = Jb]
      [] F \in {"sched", "fut"} ->
           [t EXCEPT !.called = Put(s.called, Jb, s.n),
                     !.child = IF K >= 100 THEN Put(s.child, Jb, K - 100) ELSE s.child,
                     !.throws = IF F = "fut" /\ Line.a = 1 THEN s.throws \cup {Jb} ELSE s.throws]
      [] F = "wait" -> [t EXCEPT !.before = Put(s.before, K, DOMAIN s.given)]
      [] F = "empty" -> [t EXCEPT !.before = Put(s.before, K, [given |-> DOMAIN s.given, begun |-> DOMAIN s.begun])]
      [] F \in {"lock", "trylock", "tlock"} -> Gained(Mm, K)
      [] F = "unlock" -> IF Holder(Mm) = <<K, 1>> THEN Lost(t, Mm, K) ELSE t
      [] F \in {"cwait", "ctwait"} -> Lost(t, Mm, K)
      [] F = "locks" -> [t EXCEPT !.seen = Put(s.seen, K, Get(s.may, Mm, {}))]
      [] F = "wunlock" -> [t EXCEPT !.freed = Put(s.freed, K, Holder(Mm)[1] = -1)]
      [] F = "tnew" -> [t EXCEPT !.cycle = Line.a]
      [] F = "tstart" -> [t EXCEPT !.resting = FALSE, !.passes = 0, !.started = TRUE, !.asked = FALSE]
      [] F \in {"signal", "bcast"} -> [t EXCEPT !.signals = Put(s.signals, "c", s.n)]
      [] OTHER -> t
  /\ Step

(* descendants of the jobs in D that were given by them *)
RECURSIVE Family(_)
Family(D) == LET E == D \cup {j \in DOMAIN s.child : s.child[j] \in D} IN IF E = D THEN D ELSE Family(E)

Fine == Chk("a call failed", Line.ex = "")
Next1 == [s EXCEPT !.n = s.n + 1]
Has1(m) == Holder(m)[1] = K

Ret == Is("ret") /\
  CASE F = "start" -> Fine /\ Chk("workers", Line.live = s.W) /\ s' = Next1
    [] F \in {"sched", "fut"} -> Fine /\ s' = [Next1 EXCEPT !.given = Put(s.given, Jb, s.n)]
    [] F = "get" ->
         /\ Chk("a result before the job has ended", Jb \in DOMAIN s.ended)
         /\ Chk("the result", IF Jb \in s.throws THEN Line.ex = "other" ELSE Line.ex = "" /\ Line.r = 1000 + Jb)
         /\ s' = Next1
    [] F = "stop" -> Fine /\ s' = [Next1 EXCEPT !.stopped = TRUE, !.allow = IF s.stopped THEN s.allow ELSE s.W - Cardinality(Running)]
    [] F \in {"join", "del"} ->
         /\ Fine
         /\ Chk("jobs run when the queue has ended", Running = {})
         /\ Chk("workers live when the queue has ended", F = "join" => Line.live = 0)
         /\ s' = [Next1 EXCEPT !.over = TRUE]
    [] F = "wait" ->
         /\ Fine
         /\ Chk("waited for the queue and jobs are not done", Family(s.before[K]) \subseteq DOMAIN s.ended)
         /\ s' = Next1
    [] F = "empty" ->
         /\ Fine
         /\ IF Line.r = 1 THEN Chk("the queue is said to be empty", Cardinality(s.before[K].given \ DOMAIN s.begun) <= s.W)
            ELSE Chk("the queue is said not to be empty", DOMAIN s.called \ s.before[K].begun # {})
         /\ s' = Next1
    [] F = "mnew" -> Fine /\ s' = [Next1 EXCEPT !.rec = Put(s.rec, Mm, Line.a = 1), !.held = Put(s.held, Mm, <<-1, 0>>), !.may = Put(s.may, Mm, {})]
    [] F \in {"lock", "trylock", "tlock"} ->
         IF Has1(Mm) THEN
           IF s.rec[Mm]
           THEN /\ Chk("an owner may lock again", Line.ex = "" /\ Line.r = 1)
                /\ s' = [Next1 EXCEPT !.held = Put(s.held, Mm, <<K, Holder(Mm)[2] + 1>>)]
           ELSE /\ Chk("locking twice is refused", Line.ex = "invalid")
                /\ s' = Next1
         ELSE
           /\ Fine
           /\ IF Line.r = 1
              THEN /\ Chk("two owners", Holder(Mm)[1] = -1)
                   /\ s' = [Next1 EXCEPT !.held = Put(s.held, Mm, <<K, 1>>)]
              ELSE /\ Chk("a lock without a time limit", F # "lock")
                   /\ Chk("a free mutex is refused", s.seen[K] # {})
                   /\ s' = [Next1 EXCEPT !.may = Put(s.may, Mm, s.may[Mm] \ {K})]
    [] F = "unlock" ->
         \* a last unlock left its mark when it was called
         IF K \in s.may[Mm] /\ (Has1(Mm) \/ Holder(Mm)[1] # K)
         THEN /\ Chk("an owner may unlock", Line.ex = "")
              /\ s' = IF Has1(Mm) THEN [Next1 EXCEPT !.held = Put(s.held, Mm, <<K, Holder(Mm)[2] - 1>>)]
                      ELSE [Next1 EXCEPT !.may = Put(s.may, Mm, s.may[Mm] \ {K})]
         ELSE Chk("only the owner may unlock", Line.ex = "invalid") /\ s' = Next1
    [] F = "wunlock" ->
         /\ Fine
         /\ Chk("waited for a mutex that was never free", Line.r = 1 /\ s.freed[K])
         /\ s' = Next1
    [] F = "locks" ->
         /\ Fine
         /\ IF Has1(Mm) THEN Chk("how often a mutex is locked", Line.r = 2 * Holder(Mm)[2] + 1)
            ELSE IF s.seen[K] = {} THEN Chk("a free mutex is said to be locked", Line.r = 0) ELSE TRUE
         /\ s' = Next1
    [] F \in {"cwait", "ctwait"} ->
         /\ Fine
         /\ Chk("two owners", Holder(Mm)[1] = -1)
         /\ Chk("woken without a signal", Line.r = 1 => Get(s.signals, "c", -1) > s.at[K])
         /\ Chk("a wait without a time limit", F = "cwait" => Line.r = 1)
         /\ s' = [Next1 EXCEPT !.held = Put(s.held, Mm, <<K, 1>>)]
    [] F = "tstart" -> Fine /\ Chk("a thread starts", Line.r = 1) /\ s' = Next1
    [] F \in {"tint", "twait"} ->
         /\ Fine
         /\ Chk("the work goes on after the end was waited for", s.busy = {})
         /\ Chk("the end of the thread's work", F = "twait" => Line.r = 1)
         /\ Chk("a started thread works at least once", s.started => s.passes > 0)
         /\ s' = [Next1 EXCEPT !.resting = TRUE]
    [] F \in {"tbusy", "texists"} ->
         /\ Fine
         /\ Chk("a thread that rests is said to be busy", s.resting => Line.r = 0)
         /\ s' = Next1
    [] OTHER -> Fine /\ s' = Next1

End == Is("end") /\
  /\ Chk("never ends", Line.how = "ok")
  /\ Chk("something destroyed is used", ~Line.dead)
  /\ s' = [s EXCEPT !.on = FALSE]
  /\ Step

Next == Begin \/ Run \/ JobBegins \/ JobEnds \/ PassBegins \/ PassEnds \/ Call \/ (Ret /\ Step) \/ End
=============================================================================
