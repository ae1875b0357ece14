----------------------------- MODULE M_ZipConn -----------------------------
(* Bounded design model of ZipConn: checks its properties in every reachable state and       *)
(* prints the labelled transition graph that the conformance driver walks.                    *)
EXTENDS ZipConn, TLC, Json
CONSTANTS Cap, MaxId, MaxLevel, Graph, Life
Delays == {-1, 0, 20}
VARIABLES s, n, lab

vars == <<s, n, lab>>
View == <<s, n>>
Init == s = [Init0([cap |-> Cap]) EXCEPT !.ka = KeepAlive] /\ n = 0 /\ lab = [op |-> "connect"]

Step(l) == s' = Do(s, l).s /\ lab' = l
SendL == /\ n < MaxId
         /\ Step([op |-> "send", id |-> n + 1, seq |-> IF Refused(s) THEN -1 ELSE Min(Free(s)),
                  to |-> 30, sep |-> 0, dep |-> n + 1, body |-> <<32, 2>>])
         /\ n' = n + 1
Targets == {[id |-> o.id, seq |-> o.seq] : o \in {s.out[k] : k \in 1..Len(s.out)}} \cup {[id |-> 0, seq |-> Cap - 1 - Len(s.out)]}
Pkt(o, k, d) == [pk |-> k, id |-> o.id, seq |-> o.seq, delay |-> d, sep |-> 0, body |-> <<>>]
Pkts == {Pkt(o, k, 0) : o \in Targets, k \in {"ack", "nack"}}
        \cup {Pkt(o, "wait", d) : o \in Targets, d \in Delays}
RxL == s.ka > 0 /\ \E p \in Pkts : Step(p @@ [op |-> "rx"]) /\ UNCHANGED n
CancelL == \E d \in Ids(s) : Step([op |-> "cancel", id |-> d]) /\ UNCHANGED n
AdvL == /\ Len(s.out) > 0
        /\ \E d \in {NextDue(s), NextDue(s) - 1} : d > 0 /\ Step([op |-> "adv", dt |-> d]) /\ UNCHANGED n
RaceL == /\ Len(s.out) > 0 /\ s.ka > 0
         /\ \E p \in Pkts : p.pk \in {"ack", "wait"} /\ Step(p @@ [op |-> "race", dt |-> NextDue(s)]) /\ UNCHANGED n
LifeL == /\ Life
         /\ Step([op |-> IF s.ka = 0 THEN "connect" ELSE "stop"])
         /\ UNCHANGED n
IdleL == /\ Life /\ Len(s.out) = 0   \* time passes without anything outstanding
         /\ \E d \in {KeepAlive - 1, KeepAlive, KeepAlive + 1} : Step([op |-> "adv", dt |-> d]) /\ UNCHANGED n
Next == LifeL \/ IdleL \/ SendL \/ RxL \/ CancelL \/ AdvL \/ RaceL
Limit == TLCGet("level") <= MaxLevel
Inv == TypeOK(s) /\ UniqueSeq(s) /\ Bounded(s)
Check == Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
Emit == Check /\ (Graph => PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>)))
============================================================================
