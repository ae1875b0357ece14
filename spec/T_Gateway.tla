---- MODULE T_Gateway ----
EXTENDS Gateway, TraceCheck
====
