---- MODULE MEstimatorMC ----
EXTENDS MEstimator
==============================
