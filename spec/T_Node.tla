------------------------------- MODULE T_Node -------------------------------
EXTENDS Node, TraceCheck
=============================================================================
