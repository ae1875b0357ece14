------------------------------ MODULE T_System ------------------------------
EXTENDS System, TraceCheck
=============================================================================
