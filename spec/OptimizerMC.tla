---- MODULE OptimizerMC ----
EXTENDS Naturals, FiniteSets
CONSTANTS N, MaxIt, NaN
VARIABLES pc, x, xb, start, best, it, fails, pf, lsf, rev
\* costs 0, 0, 1, 2, ...; the last state is outside the domain
CostOf(s) == IF s = N THEN NaN ELSE IF s = 0 THEN 0 ELSE s - 1
INSTANCE Optimizer WITH States <- 0..N
====
