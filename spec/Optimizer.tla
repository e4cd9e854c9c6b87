------------------------------ MODULE Optimizer ------------------------------
(***************************************************************************)
(* The design of the trust-region optimizer: propose a step, apply it,     *)
(* compare the costs, keep or undo it, until nothing moves or a limit is   *)
(* reached.  States are abstract; each has a cost, possibly undefined.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS States,      \* what the design variables can hold
          CostOf(_),   \* a natural number, or NaN
          NaN, MaxIt

VARIABLES pc, x, xb, start, best, it, fails, pf, lsf, rev

vars == <<pc, x, xb, start, best, it, fails, pf, lsf, rev>>

Worse(c) == IF c = NaN THEN TRUE ELSE c > best

Init == /\ x \in {s \in States : CostOf(s) # NaN}
        /\ xb = x /\ start = CostOf(x) /\ best = CostOf(x)
        /\ it = 0 /\ fails = 0 /\ pf = FALSE /\ lsf = FALSE
        /\ rev \in BOOLEAN /\ pc = "loop"
Limits == it < MaxIt /\ fails < MaxIt
\* the policy's linear solve fails
SolveFails == /\ pc = "loop" /\ Limits
              /\ fails' = fails + 1 /\ pf' = TRUE /\ lsf' = TRUE
              /\ UNCHANGED <<pc, x, xb, start, best, it, rev>>
Apply == /\ pc = "loop" /\ Limits
         /\ \E s \in States : /\ rev \/ CostOf(s) # NaN
                              /\ x' = s
         /\ xb' = x /\ pc' = "applied"
         /\ UNCHANGED <<start, best, it, fails, pf, lsf, rev>>
Keep == /\ pc = "applied" /\ ~(rev /\ Worse(CostOf(x)))
        /\ best' = CostOf(x) /\ it' = it + 1 /\ pf' = FALSE /\ pc' = "loop"
        /\ UNCHANGED <<x, xb, start, fails, lsf, rev>>
Undo == /\ pc = "applied" /\ rev /\ Worse(CostOf(x))
        /\ x' = xb /\ it' = it + 1 /\ fails' = fails + 1 /\ pf' = TRUE /\ pc' = "loop"
        /\ UNCHANGED <<xb, start, best, lsf, rev>>
\* converged, or at a limit
Stop == /\ pc = "loop" /\ (~Limits \/ it > 0 \/ fails > 0) /\ (Limits => ~lsf)
        /\ pc' = "done" /\ UNCHANGED <<x, xb, start, best, it, fails, pf, lsf, rev>>
Next == SolveFails \/ Apply \/ Keep \/ Undo \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the reported cost is that of the state, whenever the run may end
Truthful == pc \in {"loop", "done"} => best = CostOf(x)
\* with cost checks the cost never rises
NeverHigher == (rev /\ pc # "applied") => best <= start
Monotone == [][rev => best' <= best]_vars
Bounded == it <= MaxIt /\ fails <= MaxIt
Counts == fails <= it + MaxIt
Undone == [][(pc = "applied" /\ pf') => x' = xb]_vars
Terminates == <>(pc = "done")
=============================================================================
