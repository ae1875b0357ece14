------------------------------- MODULE T_App -------------------------------
EXTENDS App, TraceCheck
=============================================================================
