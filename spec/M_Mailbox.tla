------------------------------ MODULE M_Mailbox ------------------------------
(* Bounded design model: mailboxes 1 and 2, three entries of which two have one checksum.      *)
EXTENDS Mailbox, TLC, Json
CONSTANTS Boxes, Time, MaxMsg, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Init == s = Init0([x |-> 0]) /\ n = 0 /\ lab = [op |-> "none"]
Step(l) == s' = Do(s, l).s /\ lab' = l
Entries == {<<1, 2>>, <<0, 208, 145>>, <<7>>}
Msgs == {<<105, 4, 0, h>> \o d : h \in Boxes, d \in Entries} \cup {<<105, 5, h>> : h \in Boxes} \cup {<<105, 4, 4, 0>>}
MsgL == n < MaxMsg /\ \E b \in Msgs : Step([op |-> "msg", n |-> 5, body |-> b]) /\ n' = n + 1
SettleL == \E k \in 1..Len(s.snd) : \E how \in {"ok", "fail", "raise"} : Step([op |-> "settle", n |-> s.snd[k].n, m |-> s.snd[k].m, how |-> how]) /\ UNCHANGED n
TimeL == Time = 1 /\ Len(s.q) > 0 /\ MinRem(s.q, 9999) < 9999 /\ \E d \in {MinRem(s.q, 9999), MinRem(s.q, 9999) - 1, 200} : d > 0 /\ Step([op |-> "adv", dt |-> d]) /\ UNCHANGED n
Next == MsgL \/ SettleL \/ TimeL
Limit == TLCGet("level") <= MaxLevel
MInv == Inv(s)
Emit == /\ Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
=============================================================================
