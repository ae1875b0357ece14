------------------------------ MODULE T_Mailbox ------------------------------
EXTENDS Mailbox, TraceCheck
=============================================================================
