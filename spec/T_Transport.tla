----------------------------- MODULE T_Transport -----------------------------
EXTENDS Transport, TraceCheck
=============================================================================
