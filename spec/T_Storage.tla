------------------------------ MODULE T_Storage ------------------------------
EXTENDS Storage, TraceCheck
=============================================================================
