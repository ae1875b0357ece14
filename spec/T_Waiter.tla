---- MODULE T_Waiter ----
EXTENDS Waiter, TraceCheck
====
