---------------------------- MODULE TraceCheck ----------------------------
(* Generic verdict machine: runs every recorded trace of the implementation through the     *)
(* component specification (InitOp, DoOp) and compares what the specification prescribes     *)
(* with what was observed.  One TLC initial state per trace, one successor per consumed      *)
(* event, so the run is linear and TLC's distinct-state count proves that every event of     *)
(* every trace was consumed.                                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitOp(_),   \* trace configuration -> initial specification state
          DoOp(_, _)   \* state, event -> [s |-> next state, exp |-> expected observations]

VARIABLES t, i, s, acc, bad

TcTraces == JsonDeserialize(IOEnv.TRACES)

(* bag equality without building sets (observations are heterogeneous records) *)
TcCount(q, x) == LET RECURSIVE N(_)
                   N(k) == IF k = 0 THEN 0 ELSE N(k - 1) + (IF q[k] = x THEN 1 ELSE 0)
               IN  N(Len(q))
TcBagEq(a, b) == /\ Len(a) = Len(b)
               /\ \/ a = b
                  \/ \A k \in 1..Len(a) : TcCount(a, a[k]) = TcCount(b, a[k])

TInit == /\ t \in 1..Len(TcTraces)
         /\ i = 1
         /\ s = InitOp(TcTraces[t].cfg)
         /\ acc = <<>>
         /\ bad = FALSE

TNext == /\ ~bad
         /\ i <= Len(TcTraces[t].ev)
         /\ LET e == TcTraces[t].ev[i]
                r == DoOp(s, e)
                x == acc \o r.exp
                hold == e.burst = 1     \* delivered without letting the loop settle: judge later
                ok == hold \/ TcBagEq(x, e.obs)
            IN /\ s' = r.s
               /\ acc' = IF hold THEN x ELSE <<>>
               /\ bad' = ~ok
               /\ IF ok THEN TRUE
                  ELSE PrintT("@@B" \o ToJson([tr |-> t, at |-> i, exp |-> x, got |-> e.obs]))
         /\ i' = i + 1
         /\ UNCHANGED t
=============================================================================
