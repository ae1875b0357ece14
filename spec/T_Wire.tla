---- MODULE T_Wire ----
EXTENDS Wire, TraceCheck
====
