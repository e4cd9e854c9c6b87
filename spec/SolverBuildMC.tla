---- MODULE SolverBuildMC ----
EXTENDS SolverBuild
==============================
