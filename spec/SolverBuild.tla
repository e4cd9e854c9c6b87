----------------------------- MODULE SolverBuild -----------------------------
(***************************************************************************)
(* What a linear system solver remembers.  Error terms 1..T contribute     *)
(* term(x, i) to the system at state x; evaluating the errors and building *)
(* the system are spread over a number of threads, each given a slice of   *)
(* the error terms, running in any order.  A build replaces the system, a  *)
(* conditioned solve leaves it as it is, and nothing accumulates.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS T, MaxThreads, States, Conds, MaxOps

VARIABLES x,        \* the state of the problem
          e,        \* e[i]: the state at which term i's error was last written (or 0)
          sums,     \* the errors each thread added up
          H,        \* what was added to the system: a bag, term -> number of times, and at which state
          todo,     \* for each thread of a running job, the terms still to do
          job,      \* "none", "errors", "build"
          cond, d,  \* conditioner, and what is on the diagonal
          cost, sol, evals, built, ops
vars == <<x, e, sums, H, todo, job, cond, d, cost, sol, evals, built, ops>>

Terms == 1..T
Min(a, b) == IF a < b THEN a ELSE b
\* slices as they are cut: nt threads, equal shares, the remainder to the last
NT(n) == Min(IF n < 1 THEN 1 ELSE n, T)
Share(n) == T \div NT(n)
Slice(n, k) == IF k = NT(n) THEN ((k - 1) * Share(n) + 1)..T ELSE ((k - 1) * Share(n) + 1)..(k * Share(n))
Term(s, i) == s * 10 + i            \* stands for the contribution of term i at state s

Init == /\ x \in States /\ e = [i \in Terms |-> 0] /\ sums = <<>> /\ H = [i \in Terms |-> [n |-> 0, at |-> 0]]
        /\ todo = <<>> /\ job = "none" /\ cond = 0 /\ d = 0 /\ cost = -1 /\ sol = <<>> /\ evals = 0 /\ built = 0 /\ ops = 0
Idle == job = "none" /\ ops < MaxOps /\ ops' = ops + 1
Set(s) == Idle /\ s # x /\ x' = s /\ UNCHANGED <<e, sums, H, todo, job, cond, d, cost, sol, evals, built>>
Errors(n) == /\ Idle /\ job' = "errors" /\ todo' = [k \in 1..NT(n) |-> Slice(n, k)] /\ sums' = [k \in 1..NT(n) |-> 0]
             /\ UNCHANGED <<x, e, H, cond, d, cost, sol, evals, built>>
\* building clears the system first
Build(n) == /\ Idle /\ evals = x /\ job' = "build" /\ todo' = [k \in 1..NT(n) |-> Slice(n, k)]
            /\ H' = [i \in Terms |-> [n |-> 0, at |-> 0]] /\ d' = 0
            /\ UNCHANGED <<x, e, sums, cond, cost, sol, evals, built>>
Work(k) == /\ job # "none" /\ todo[k] # {}
           /\ LET i == CHOOSE j \in todo[k] : \A m \in todo[k] : j <= m IN
              /\ todo' = [todo EXCEPT ![k] = @ \ {i}]
              /\ IF job = "errors" THEN /\ e' = [e EXCEPT ![i] = x] /\ sums' = [sums EXCEPT ![k] = @ + Term(x, i)] /\ UNCHANGED H
                 ELSE /\ H' = [H EXCEPT ![i] = [n |-> @.n + 1, at |-> x]] /\ UNCHANGED <<e, sums>>
           /\ UNCHANGED <<x, job, cond, d, cost, sol, evals, built, ops>>
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Total(f, S \ {k})
Done == /\ job # "none" /\ \A k \in DOMAIN todo : todo[k] = {}
        /\ job' = "none" /\ todo' = <<>>
        /\ IF job = "errors" THEN /\ cost' = Total(sums, DOMAIN sums) /\ evals' = x /\ UNCHANGED built
           ELSE /\ built' = x /\ UNCHANGED <<cost, evals>>
        /\ UNCHANGED <<x, e, sums, H, cond, d, sol, ops>>
Cond(c) == Idle /\ c # cond /\ cond' = c /\ UNCHANGED <<x, e, sums, H, todo, job, d, cost, sol, evals, built>>
\* the diagonal is put on for the solution and taken off again
Solve == /\ Idle /\ built # 0
         /\ sol' = [H |-> H, d |-> d + cond, at |-> built, cond |-> cond] /\ d' = (d + cond) - cond
         /\ UNCHANGED <<x, e, sums, H, todo, job, cond, cost, evals, built>>
Next == \/ \E s \in States : Set(s)
        \/ \E n \in 0..MaxThreads : Errors(n) \/ Build(n)
        \/ \E k \in DOMAIN todo : Work(k)
        \/ Done \/ \E c \in Conds : Cond(c)
        \/ Solve
Spec == Init /\ [][Next]_vars

Partition == \A n \in 0..MaxThreads :
               /\ UNION {Slice(n, k) : k \in 1..NT(n)} = Terms
               /\ \A a \in 1..NT(n) : \A b \in 1..NT(n) : a # b => Slice(n, a) \cap Slice(n, b) = {}
Once == job = "none" /\ built # 0 => \A i \in Terms : H[i] = [n |-> 1, at |-> built]
NoResidue == d = 0
CostRight == job = "none" /\ cost # -1 => cost = Total([i \in Terms |-> Term(evals, i)], Terms)
SolRight == sol # <<>> => sol.d = sol.cond /\ \A i \in Terms : sol.H[i] = [n |-> 1, at |-> sol.at]
=============================================================================
