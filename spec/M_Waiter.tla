------------------------------ MODULE M_Waiter ------------------------------
EXTENDS Waiter, TLC, Json
CONSTANTS Mode, MaxId, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Init == s = Init0([mode |-> Mode]) /\ n = 0 /\ lab = [op |-> "none"]
Step(l) == s' = Do(s, l).s /\ lab' = l
ReqL == /\ n < MaxId
        /\ \E t \in 1..2 : \E to \in {20, 30} : (to = 20 => t = 1) /\ Step([op |-> "req", id |-> n + 1, typ |-> t, to |-> to])
        /\ n' = n + 1
SettleL == \E d \in Ids(s) : Get(s, d).ph = "send" /\ \E h \in {"ok", "fail", "raise"} :
             Step([op |-> "settle", id |-> d, how |-> h]) /\ UNCHANGED n
MsgL == \E t \in 1..2 : Step([op |-> "msg", typ |-> t, val |-> TLCGet("level") % 5, n |-> 0]) /\ UNCHANGED n
CancelL == \E d \in Ids(s) : Step([op |-> "cancel", id |-> d]) /\ UNCHANGED n
Waiting == \E k \in 1..Len(s.req) : s.req[k].ph = "wait"
AdvL == Waiting /\ \E d \in {NextDue(s), NextDue(s) - 5} : d > 0 /\ Step([op |-> "adv", dt |-> d]) /\ UNCHANGED n
RaceL == Waiting /\ \E t \in 1..2 : Step([op |-> "race", typ |-> t, val |-> 7, n |-> 0, dt |-> NextDue(s)]) /\ UNCHANGED n
Next == ReqL \/ SettleL \/ MsgL \/ CancelL \/ AdvL \/ RaceL
Limit == TLCGet("level") <= MaxLevel
Inv == TypeOK(s)
Emit == /\ Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
=============================================================================
