-------------------------------- MODULE Trc --------------------------------
(***************************************************************************)
(* Trace validation.  The trace is the file named by the environment       *)
(* variable TRACE: one JSON object per line, written by a driver that ran  *)
(* the real code.  A trace specification extends this module, takes one    *)
(* step per line and reuses the actions of the design; the code conforms   *)
(* iff every line is consumed (the runner compares the depth TLC reports   *)
(* with the length of the trace).                                          *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* the next line of the trace

Line == Trace[l]
More == l <= Len(Trace)
Is(op) == More /\ Trace[l].op = op
Step == l' = l + 1
Has(r, f) == f \in DOMAIN r

(* c, and on refusal a line that says which condition failed where *)
Chk(name, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, name>>) /\ FALSE
ChkV(name, c, v) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, name, v>>) /\ FALSE
=============================================================================
