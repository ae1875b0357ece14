---- MODULE T_ZipConn ----
(* InitOp <- Init0 and DoOp <- Do are bound in the configuration (harness/tlc.py). *)
EXTENDS ZipConn, TraceCheck
====
