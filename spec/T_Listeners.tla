----------------------------- MODULE T_Listeners -----------------------------
EXTENDS Listeners, TraceCheck
=============================================================================
