---- MODULE MCOwnership ----
EXTENDS Ownership
====
