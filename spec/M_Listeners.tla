----------------------------- MODULE M_Listeners -----------------------------
(* Bounded design model: listeners of every kind registered in every order, announcements that *)
(* wait or do not, coroutines ending in every order.                                           *)
EXTENDS Listeners, TLC, Json
CONSTANTS Kinds, MaxReg, MaxSay, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Init == s = Init0([x |-> 0]) /\ n = 0 /\ lab = [op |-> "none"]
Step(l) == s' = Do(s, l @@ [obs |-> <<>>]).s /\ lab' = l
Total == Len(s.regs[1]) + Len(s.regs[2])
AddL == Total < MaxReg /\ \E o \in {1, 2} : \E a \in Kinds : \E b \in {"none", "val", "coro"} :
          /\ (o = 2 => a = "val") /\ (b = "none" \/ a \in {"adds", "says", "none"})
          /\ Step([op |-> "add", o |-> o, l |-> Total + 1, a |-> a, b |-> b, x |-> 10 * (Total + 1)]) /\ UNCHANGED n
SayL == n < MaxSay /\ Total > 0 /\ \E o \in {1, 2} : \E m \in {"a", "b"} : \E h \in {"speak", "ask"} :
          Step([op |-> "say", o |-> o, m |-> m, how |-> h, id |-> n + 1, v |-> 5]) /\ n' = n + 1
EndL == \E k \in 1..Len(s.open) : \E h \in {"val", "raise"} : Step([op |-> "end", id |-> s.open[k].id, l |-> s.open[k].l, how |-> h, v |-> 7]) /\ UNCHANGED n
Next == AddL \/ SayL \/ EndL
Limit == TLCGet("level") <= MaxLevel
MInv == Inv(s)
Emit == /\ Assert(StepOK(s, lab' @@ [obs |-> <<>>]), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
=============================================================================
